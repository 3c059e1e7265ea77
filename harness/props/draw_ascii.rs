// The picture of an automaton in characters
const W: usize = 64;
/// what is drawn: the symbols from one state to another
struct Pic<const N: usize, const K: usize> {
    has: [[[bool; K]; N]; N],
    acc: [bool; N],
    init: usize,
}
fn judge<const N: usize, const K: usize>(p: &Pic<N, K>, sy: [&str; K], names: [&str; N], got: &str) {
    let mut w = 0;
    for n in names {
        w = w.max(n.chars().count());
    }
    let left = |i: usize| 5 + (7 + w) * i;
    let right = |i: usize| 6 + w + (7 + w) * i;
    let lines: Vec<Vec<char>> = {
        let mut v = Vec::with_capacity(2 * N * N + 1);
        for l in got.split('\n') {
            let mut c = Vec::with_capacity(W);
            c.extend(l.chars());
            v.push(c);
        }
        v
    };
    check(lines.len() % 2 == 1, "two lines per level and one of states");
    let levels = lines.len() / 2;
    check(levels <= N * N, "no more levels than arrows");
    // the states
    let mut want: Vec<char> = Vec::with_capacity(W);
    want.extend(if p.init == 0 { ['-', '>', ' '] } else { [' ', ' ', ' '] });
    for i in 0..N {
        if i > 0 {
            want.push(if p.init == i { '>' } else { ' ' });
        }
        want.extend(if p.acc[i] { ['(', '(', ' '] } else { ['(', ' ', ' '] });
        want.extend(names[i].chars());
        for _ in names[i].chars().count()..w {
            want.push(' ');
        }
        want.extend(if p.acc[i] { [' ', ')', ')'] } else { [' ', ' ', ')'] });
    }
    want.push(' ');
    check(lines[2 * levels] == want, "the states, in order: which is initial, which are accepting, their names");
    // where an arrow is drawn
    let cols = |i: usize, j: usize| {
        if i == j {
            (left(i), right(i), left(i) + 1, '>')
        } else if i < j {
            (right(i), left(j), right(i) + 2, '>')
        } else {
            (right(j), left(i), left(i) - 1, '<')
        }
    };
    // the level of every arrow
    let mut level = [[N * N; N]; N];
    let mut drawn = [[0; N]; N];
    for v in 0..N * N {
        if v < levels {
            let top = &lines[2 * (levels - 1 - v)];
            check(top.len() == right(N) - 1, "width of the picture");
            for i in 0..N {
                for j in 0..N {
                    let (a, b, h, head) = cols(i, j);
                    let mut here = true;
                    for x in a..b + 1 {
                        here &= top[x] == if x == h { head } else { '-' };
                    }
                    // (it neither starts nor ends there if the line goes on)
                    here &= !(i < j && top[b + 1] == '-' || i > j && top[a - 1] == '-');
                    if here {
                        level[i][j] = v;
                        drawn[i][j] += 1;
                    }
                }
            }
        }
    }
    let mut need = [[false; N]; N];
    for i in 0..N {
        for j in 0..N {
            for c in 0..K {
                need[i][j] |= p.has[i][j][c];
            }
            check(drawn[i][j] == if need[i][j] { 1 } else { 0 }, "an arrow exactly where there is a transition");
        }
    }
    // the whole picture, given the levels
    for v in 0..N * N {
        if v < levels {
            let mut top = [' '; W];
            let mut bot = [' '; W];
            for i in 0..N {
                for j in 0..N {
                    let (a, b, ..) = cols(i, j);
                    if need[i][j] && level[i][j] > v {
                        (top[a], top[b], bot[a], bot[b]) = ('|', '|', '|', '|');
                    }
                }
            }
            let mut some = false;
            for i in 0..N {
                for j in 0..N {
                    let (a, b, h, head) = cols(i, j);
                    if need[i][j] && level[i][j] == v {
                        some = true;
                        for x in a..b + 1 {
                            // (an arrow that ends at a state may touch the loop of that state)
                            check(top[x] == ' ' || top[x] == '|' || (x == a || x == b) && top[x] == '-', "arrows of a level do not overlap");
                            top[x] = if x == h { head } else { '-' };
                        }
                        (bot[a], bot[b]) = ('|', '|');
                    }
                }
            }
            check(some, "no level without an arrow");
            let mut n = right(N) - 1;
            for l in 0..N {
                // labels, from left to right
                for r in l + 1..N {
                    for back in [false, true] {
                        let (i, j) = if back { (r, l) } else { (l, r) };
                        if need[i][j] && level[i][j] == v {
                            let mut x = right(l) + 1;
                            let mut first = true;
                            for c in 0..K {
                                if p.has[i][j][c] {
                                    if !first {
                                        (bot[x], bot[x + 1]) = (',', ' ');
                                        x += 2;
                                    }
                                    first = false;
                                    for ch in sy[c].chars() {
                                        bot[x] = ch;
                                        x += 1;
                                    }
                                }
                            }
                            n = n.max(x);
                        }
                    }
                }
            }
            let t = &lines[2 * (levels - 1 - v)];
            let b = &lines[2 * (levels - 1 - v) + 1];
            check(b.len() == n, "the lines of labels are as long as they need to be");
            for x in 0..W {
                if x < right(N) - 1 {
                    check(t[x] == top[x], "bars lead from every arrow down to its states");
                }
                if x < n {
                    check(b[x] == bot[x], "every arrow has its label");
                }
            }
        }
    }
    observe(levels);
    cover(levels > 1, "more than one level");
}
const SY: [[&str; 3]; 3] = [["a", "b", "c"], ["é", "a", "\u{301}b"], ["abcdefghij", "é", "klmno"]];
const NM: [[&str; 4]; 2] = [["p", "q", "r", "s"], ["é", "long", "r", "xy"]];
fn dfa<const N: usize, const K: usize>() {
    let y = slice(6 * N);
    let (sy, nm) = (SY[y % 3], NM[y / 3 % 2]);
    let sy: [&str; K] = std::array::from_fn(|c| sy[c]);
    let nm: [&str; N] = std::array::from_fn(|i| nm[i]);
    let d = D::<N, K>::any(y / 6);
    hash_order(8);
    let mut p = Pic { has: [[[false; K]; N]; N], acc: d.acc, init: d.init };
    for i in 0..N {
        for c in 0..K {
            for j in 0..N {
                p.has[i][j][c] = d.t[i][c] == j;
            }
        }
    }
    let x = d.build_named(&sy, &nm);
    judge(&p, sy, nm, &dandy_draw::dfa_ascii_art(&x));
}
fn nfa<const N: usize, const K: usize, const K1: usize>() {
    let y = slice(6 * N);
    let (sy, nm) = (SY[y % 3], NM[y / 3 % 2]);
    let nm: [&str; N] = std::array::from_fn(|i| nm[i]);
    let a = A::<N, K>::any(y / 6, true);
    hash_order(8);
    let mut p = Pic { has: [[[false; K1]; N]; N], acc: a.acc, init: a.init };
    for i in 0..N {
        for j in 0..N {
            for c in 0..K {
                p.has[i][j][c] = a.t[i][c][j];
            }
            p.has[i][j][K] = a.eps[i][j];
        }
    }
    let all: [&str; K1] = std::array::from_fn(|c| if c < K { sy[c] } else { "ε" });
    let x = a.build_named(&sy[..K], &nm);
    judge(&p, all, nm, &dandy_draw::nfa_ascii_art(&x));
}
entries! {
    vx_dfa_21 = dfa::<2, 1>;
    vx_dfa_22 = dfa::<2, 2>;
    vx_dfa_31 = dfa::<3, 1>;
    vx_dfa_32 = dfa::<3, 2>;
    vx_dfa_41 = dfa::<4, 1>;
    vx_dfa_33 = dfa::<3, 3>;
    vx_nfa_22 = nfa::<2, 2, 3>;
    vx_nfa_32 = nfa::<3, 2, 3>;
    vx_nfa_21 = nfa::<2, 1, 2>;
    vx_nfa_31 = nfa::<3, 1, 2>;
}
