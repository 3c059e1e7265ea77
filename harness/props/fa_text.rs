// The texts of automata: accepted exactly if they are of the documented format, and read as it says
const C: [&str; 16] = ["", "a", "b", "->", "→", "*", " ", "\t", "\n", "\r\n", "#", "{", "}", "ε", "eps", "å"];
const B: [usize; 16] = [0, 1, 1, 2, 3, 1, 1, 1, 1, 2, 1, 1, 1, 2, 3, 2];
const LINE: usize = 8;
const CRLF: usize = 9;
const HASH: usize = 10;
const OPEN: usize = 11;
const CLOSE: usize = 12;
const END: usize = 99;
/// plain word, or one of the words with a meaning
const PLAIN: usize = 1;
const ARROW: usize = 3;
const STAR: usize = 5;
const EPS: usize = 13;

#[derive(Clone, Copy)]
struct Tok {
    kind: usize,
    from: usize,
    to: usize,
    /// white space (or the beginning of the line) comes before it
    gap: bool,
}
/// reference: split into lines of tokens
struct P<'a> {
    s: &'a [usize],
    at: usize,
    byte: usize,
}
impl P<'_> {
    fn peek(&self) -> usize {
        if self.at < self.s.len() {
            self.s[self.at]
        } else {
            END
        }
    }
    fn next(&mut self) {
        self.byte += B[self.s[self.at]];
        self.at += 1;
    }
    fn line(&mut self) -> Vec<Tok> {
        let mut v = Vec::with_capacity(4);
        let mut gap = true;
        loop {
            match self.peek() {
                END => break,
                LINE | CRLF => {
                    self.next();
                    break;
                }
                HASH => {
                    // a comment
                    while !matches!(self.peek(), END | LINE | CRLF) {
                        self.next();
                    }
                }
                0 => self.next(),
                6 | 7 => {
                    gap = true;
                    self.next();
                }
                OPEN | CLOSE => {
                    v.push(Tok { kind: self.peek(), from: 0, to: 0, gap });
                    gap = false;
                    self.next();
                }
                _ => {
                    let from = self.byte;
                    let mut kind = 0;
                    loop {
                        let c = self.peek();
                        if c == 0 {
                            self.next();
                            continue;
                        }
                        if matches!(c, END | LINE | CRLF | HASH | OPEN | CLOSE | 6 | 7) {
                            break;
                        }
                        let k = match c {
                            3 | 4 => ARROW,
                            5 => STAR,
                            13 | 14 => EPS,
                            _ => PLAIN,
                        };
                        kind = if kind == 0 { k } else { PLAIN };
                        self.next();
                    }
                    v.push(Tok { kind, from, to: self.byte, gap });
                    gap = false;
                }
            }
        }
        v
    }
    /// the lines with something on them
    fn lines(&mut self) -> Vec<Vec<Tok>> {
        let mut v = Vec::with_capacity(4);
        while self.peek() != END {
            let l = self.line();
            if !l.is_empty() {
                v.push(l);
            }
        }
        v
    }
}
/// a row up to the transitions: (initial, accepting, name, how many tokens were taken)
fn front(l: &[Tok]) -> Option<(bool, bool, Tok, usize)> {
    let mut i = 0;
    let init = l[0].kind == ARROW;
    i += init as usize;
    let acc = i < l.len() && l[i].kind == STAR;
    i += acc as usize;
    if i < l.len() && l[i].kind == PLAIN {
        Some((init, acc, l[i], i + 1))
    } else {
        None
    }
}
fn same(s: &str, t: &Tok, x: &str) -> bool {
    let off = (x.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
    (off == t.from && x.len() == t.to - t.from) || *x == s[t.from..t.to]
}
fn text(c: &[usize]) -> String {
    let mut s = String::with_capacity(3 * c.len());
    for &x in c {
        s.push_str(C[x]);
    }
    s
}

fn dfa_text(c: &[usize]) -> bool {
    let s = text(c);
    let l = P { s: c, at: 0, byte: 0 }.lines();
    let mut good = l.len() >= 2;
    for (i, l) in l.iter().enumerate() {
        let from = if i == 0 {
            0
        } else {
            match front(l) {
                None => {
                    good = false;
                    continue;
                }
                Some(x) => {
                    good &= x.3 < l.len();
                    x.3
                }
            }
        };
        for t in &l[from..] {
            good &= t.kind == PLAIN;
        }
    }
    let r = dandy::parser::dfa(&s);
    observe(good as usize);
    match &r {
        Err(_) => check(!good, "what is in the format is accepted"),
        Ok(p) => {
            check(good, "what is outside the format is rejected");
            let (head, rows) = dandy::verif::read_dfa(p);
            check(head.len() == l[0].len(), "the alphabet is read");
            for (x, t) in head.iter().zip(&l[0]) {
                check(same(&s, t, x), "the alphabet is read");
            }
            check(rows.len() == l.len() - 1, "a state for every row");
            for (x, l) in rows.iter().zip(&l[1..]) {
                let (init, acc, name, n) = front(l).unwrap();
                check(x.1 == init, "the initial state is read");
                check(x.2 == acc, "accepting states are read");
                check(same(&s, &name, x.0), "the names of states are read");
                check(x.3.len() == l.len() - n, "the transitions are read");
                for (x, t) in x.3.iter().zip(&l[n..]) {
                    check(same(&s, t, x), "the transitions are read");
                }
            }
        }
    }
    good
}

/// where the sets of a row begin and end: None if it is malformed
fn sets(l: &[Tok]) -> Option<Vec<(usize, usize)>> {
    let mut v = Vec::with_capacity(2);
    let mut open = END;
    for (i, t) in l.iter().enumerate() {
        if open == END {
            if t.kind != OPEN || !t.gap {
                return None;
            }
            open = i;
        } else if t.kind == CLOSE {
            v.push((open + 1, i));
            open = END;
        } else if t.kind != PLAIN || (!t.gap && i > open + 1) {
            return None;
        }
    }
    if open != END || v.is_empty() {
        return None;
    }
    Some(v)
}
fn nfa_text(c: &[usize]) -> bool {
    let s = text(c);
    let l = P { s: c, at: 0, byte: 0 }.lines();
    let mut good = l.len() >= 2;
    for (i, l) in l.iter().enumerate() {
        if i == 0 {
            for t in l {
                good &= (t.kind == PLAIN) | (t.kind == EPS);
            }
        } else {
            match front(l) {
                None => good = false,
                Some(x) => good &= sets(&l[x.3..]).is_some(),
            }
        }
    }
    let r = dandy::parser::nfa(&s);
    observe(good as usize);
    match &r {
        Err(_) => check(!good, "what is in the format is accepted"),
        Ok(p) => {
            check(good, "what is outside the format is rejected");
            let (head, rows) = dandy::verif::read_nfa(p);
            check(head.len() == l[0].len(), "the alphabet is read");
            for (x, t) in head.iter().zip(&l[0]) {
                match x {
                    None => check(t.kind == EPS, "the alphabet is read"),
                    Some(x) => check(t.kind == PLAIN && same(&s, t, x), "the alphabet is read"),
                }
            }
            check(rows.len() == l.len() - 1, "a state for every row");
            for (x, l) in rows.iter().zip(&l[1..]) {
                let (init, acc, name, n) = front(l).unwrap();
                check(x.1 == init, "the initial state is read");
                check(x.2 == acc, "accepting states are read");
                check(same(&s, &name, x.0), "the names of states are read");
                let v = sets(&l[n..]).unwrap();
                check(x.3.len() == v.len(), "the transitions are read");
                for (x, y) in x.3.iter().zip(&v) {
                    check(x.len() == y.1 - y.0, "the sets are read");
                    for (x, t) in x.iter().zip(&l[n + y.0..n + y.1]) {
                        check(same(&s, t, x), "the sets are read");
                    }
                }
            }
        }
    }
    good
}
fn pick<const L: usize>(p: &[&[usize]; L]) -> [usize; L] {
    let mut c = [0; L];
    for i in 0..L {
        c[i] = p[i][choice(p[i].len())];
    }
    c
}
/// any pieces
fn free<const L: usize>(of: &[usize]) -> [usize; L] {
    let mut c = [0; L];
    for i in 0..L {
        c[i] = of[choice(of.len())];
    }
    c
}
fn dfa_free() {
    let c = free::<6>(&[1, 3, 5, 6, 8, 10, 11, 13]);
    dfa_text(&c);
}
fn dfa_long() {
    let c = free::<9>(&[1, 3, 6, 8, 13]);
    let g = dfa_text(&c);
    cover(g, "a DFA");
}
// after a head
fn dfa_after() {
    let mut c = [1, 8, 0, 0, 0, 0, 0, 0, 0];
    c[2..].copy_from_slice(&free::<7>(&[0, 1, 4, 5, 7, 9, 10, 11, 14, 15]));
    let g = dfa_text(&c);
    cover(g, "a DFA");
}
fn nfa_long() {
    let c = free::<10>(&[1, 6, 8, 11, 12]);
    let g = nfa_text(&c);
    cover(g, "an NFA");
}
fn nfa_after() {
    let mut c = [13, 8, 0, 0, 0, 0, 0, 0, 0];
    c[2..].copy_from_slice(&free::<7>(&[0, 1, 4, 5, 7, 9, 10, 11, 12, 14]));
    let g = nfa_text(&c);
    cover(g, "an NFA");
}
// two rows of sets
fn nfa_rows() {
    let c = pick(&[&[1], &[8, 9], &[3, 0], &[6], &[1, 5], &[6], &[11, 1], &[1, 0], &[12, 6], &[8, 10], &[8, 0, 6], &[3, 10, 0], &[6], &[2, 5], &[6, 0], &[11], &[1, 6], &[12, 0], &[8, 0, 10], &[0, 8, 1]]);
    let g = nfa_text(&c);
    cover(g, "an NFA");
}
// head and one row
fn dfa_row() {
    let c = pick(&[&[0, 6, 8, 10], &[1, 13, 4], &[0, 6, 15], &[0, 2, 5], &[0, 6, 10], &[8, 9, 6], &[0, 6, 10], &[3, 4, 5, 0], &[6, 0], &[5, 3, 0], &[6, 7], &[1, 15, 11], &[0, 6], &[2, 10], &[0, 6, 8]]);
    let g = dfa_text(&c);
    cover(g, "a DFA");
}
// two rows
fn dfa_rows() {
    let c = pick(&[&[1], &[8, 9], &[3, 0], &[6], &[1, 5], &[6], &[1, 0], &[0, 6], &[8, 10], &[8, 0, 6], &[3, 10, 0], &[6], &[2, 5], &[6], &[1, 0], &[8, 0, 10], &[0, 8, 1]]);
    let g = dfa_text(&c);
    cover(g, "a DFA");
}
fn nfa_free() {
    let c = free::<6>(&[1, 3, 6, 8, 10, 11, 12, 13]);
    nfa_text(&c);
}
fn nfa_row() {
    let c = pick(&[&[0, 6, 10], &[1, 13, 5], &[0, 6, 15], &[14, 2, 0], &[0, 6], &[8, 9, 6], &[3, 4, 5, 0], &[6, 0], &[5, 1, 0], &[6, 0], &[11, 1], &[0, 6], &[2, 0, 10], &[6, 0], &[12, 11, 0], &[0, 6, 10]]);
    let g = nfa_text(&c);
    cover(g, "an NFA");
}
// a row with two sets
fn nfa_sets() {
    let c = pick(&[&[1, 13], &[8], &[1], &[6], &[11], &[0, 6], &[1, 0], &[0, 6], &[1, 12, 15], &[0, 6], &[12, 0], &[6, 0, 8], &[11, 2], &[6, 0], &[12, 2], &[0, 12, 10], &[0, 8]]);
    let g = nfa_text(&c);
    cover(g, "an NFA");
}
entries! {
    vx_dfa_free = dfa_free;
    vx_dfa_row = dfa_row;
    vx_dfa_rows = dfa_rows;
    vx_dfa_long = dfa_long;
    vx_dfa_after = dfa_after;
    vx_nfa_long = nfa_long;
    vx_nfa_after = nfa_after;
    vx_nfa_rows = nfa_rows;
    vx_nfa_free = nfa_free;
    vx_nfa_row = nfa_row;
    vx_nfa_sets = nfa_sets;
}
