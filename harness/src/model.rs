//! Reference models: automata as plain tables, with branch-free exact oracles over them.
use crate::rt::*;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;

pub const NAMES: [&str; 8] = ["p", "q", "r", "s", "t", "u", "v", "w"];
pub const AL: [&str; 4] = ["a", "b", "c", "d"];

/// a complete deterministic automaton with at most N states (n of them in use) over K symbols
#[derive(Clone)]
pub struct D<const N: usize, const K: usize> {
    pub n: usize,
    pub t: [[usize; K]; N],
    pub acc: [bool; N],
    pub init: usize,
}

impl<const N: usize, const K: usize> D<N, K> {
    /// every automaton with exactly N states and initial state init
    fn any_but_first(init: usize) -> Self {
        let mut d = D { n: N, t: [[0; K]; N], acc: [false; N], init };
        for i in 0..N {
            for c in 0..K {
                if i + c > 0 {
                    d.t[i][c] = choice(N);
                }
            }
            d.acc[i] = any();
        }
        d
    }
    pub fn any(init: usize) -> Self {
        let mut d = Self::any_but_first(init);
        d.t[0][0] = choice(N);
        d
    }
    /// every automaton with exactly N states; the work is split by initial state and first transition
    pub fn any_sliced() -> Self {
        let x = slice(N * N);
        let mut d = Self::any_but_first(x % N);
        d.t[0][0] = x / N;
        d
    }
    pub fn build(&self, alphabet: &[&str]) -> Dfa {
        self.build_named(alphabet, &NAMES)
    }
    pub fn build_named(&self, alphabet: &[&str], names: &[&str]) -> Dfa {
        let mut st = Vec::with_capacity(N);
        for i in 0..N {
            let mut t = Vec::with_capacity(K);
            for c in 0..K {
                t.push(self.t[i][c]);
            }
            st.push((names[i], self.acc[i], t));
        }
        dandy::verif::dfa(alphabet, st, self.init)
    }
    /// read a Dfa back, checking that it is well-formed and has at most N states; col[c] is the position of
    /// our symbol c in its alphabet
    pub fn read(d: &Dfa, col: &[usize; K]) -> Self {
        let s = d.states();
        let n = s.len();
        check(n >= 1, "has a state");
        check(n <= N, "number of states within the expected maximum");
        check(d.alphabet().len() == K, "size of the alphabet");
        let init = d.initial_state_index();
        check(init < n, "initial state exists");
        let mut r = D { n, t: [[0; K]; N], acc: [false; N], init };
        for i in 0..N {
            if i < n {
                check(s[i].is_initial() == (i == init), "initial flag set exactly on the initial state");
                check(s[i].transitions().len() == K, "a transition for every symbol");
                r.acc[i] = s[i].is_accepting();
                for c in 0..K {
                    let x = s[i].transitions()[col[c]];
                    check(x < n, "transition target exists");
                    r.t[i][c] = x;
                }
            }
        }
        r
    }
    pub fn reach(&self) -> [bool; N] {
        let mut r = [false; N];
        for i in 0..N {
            r[i] = i == self.init;
        }
        for _ in 1..N {
            let mut s = r;
            for i in 0..N {
                for c in 0..K {
                    for j in 0..N {
                        s[j] |= r[i] & (self.t[i][c] == j);
                    }
                }
            }
            r = s;
        }
        r
    }
    /// distinguishable pairs
    pub fn dist(&self) -> [[bool; N]; N] {
        let mut d = [[false; N]; N];
        for i in 0..N {
            for j in 0..N {
                d[i][j] = self.acc[i] != self.acc[j];
            }
        }
        for _ in 1..N {
            let mut e = d;
            for i in 0..N {
                for j in 0..i {
                    let mut x = d[i][j];
                    for c in 0..K {
                        for k in 0..N {
                            for l in 0..N {
                                x |= d[k][l] & (self.t[i][c] == k) & (self.t[j][c] == l);
                            }
                        }
                    }
                    e[i][j] = x;
                    e[j][i] = x;
                }
            }
            d = e;
        }
        d
    }
}

/// the pairs of states of a and b reached by a common word
pub fn pairs<const N: usize, const M: usize, const K: usize>(a: &D<N, K>, b: &D<M, K>) -> [[bool; M]; N] {
    let mut r = [[false; M]; N];
    for i in 0..N {
        for j in 0..M {
            r[i][j] = (a.init == i) & (b.init == j);
        }
    }
    for _ in 1..N * M {
        let mut s = r;
        let mut grew = false;
        for i in 0..N {
            for j in 0..M {
                for c in 0..K {
                    for k in 0..N {
                        let x = r[i][j] & (a.t[i][c] == k);
                        for l in 0..M {
                            let y = x & (b.t[j][c] == l);
                            grew |= y & !s[k][l];
                            s[k][l] |= y;
                        }
                    }
                }
            }
        }
        r = s;
        if !grew {
            break;
        }
    }
    r
}
/// every reachable pair satisfies acc_b == f(acc_a)
pub fn same_language<const N: usize, const M: usize, const K: usize>(a: &D<N, K>, b: &D<M, K>) -> bool {
    let r = pairs(a, b);
    let mut ok = true;
    for i in 0..N {
        for j in 0..M {
            ok &= !(r[i][j] & (a.acc[i] != b.acc[j]));
        }
    }
    ok
}
pub fn count(x: &[bool]) -> usize {
    let mut n = 0;
    for b in x {
        n += *b as usize;
    }
    n
}
/// 0, 1, 2, ...
pub fn ident<const K: usize>() -> [usize; K] {
    let mut r = [0; K];
    for i in 0..K {
        r[i] = i;
    }
    r
}

/// a nondeterministic automaton with ε-moves: at most N states (n in use), K symbols
#[derive(Clone)]
pub struct A<const N: usize, const K: usize> {
    pub n: usize,
    pub eps: [[bool; N]; N],
    pub t: [[[bool; N]; K]; N],
    pub acc: [bool; N],
    pub init: usize,
}
impl<const N: usize, const K: usize> A<N, K> {
    pub fn empty() -> Self {
        A { n: N, eps: [[false; N]; N], t: [[[false; N]; K]; N], acc: [false; N], init: 0 }
    }
    /// every automaton with exactly N states
    pub fn any(init: usize, eps: bool) -> Self {
        let mut a = Self::empty();
        a.init = init;
        for i in 0..N {
            for j in 0..N {
                a.eps[i][j] = eps && any();
                for c in 0..K {
                    a.t[i][c][j] = any();
                }
            }
            a.acc[i] = any();
        }
        a
    }
    pub fn build(&self, alphabet: &[&str]) -> Nfa {
        self.build_named(alphabet, &NAMES)
    }
    pub fn build_named(&self, alphabet: &[&str], names: &[&str]) -> Nfa {
        let set = |s: &[bool; N]| {
            let mut v = Vec::with_capacity(N);
            for j in 0..N {
                if s[j] {
                    v.push(j);
                }
            }
            v
        };
        let mut st = Vec::with_capacity(N);
        for i in 0..N {
            let mut t = Vec::with_capacity(K);
            for c in 0..K {
                t.push(set(&self.t[i][c]));
            }
            st.push((names[i], self.acc[i], set(&self.eps[i]), t));
        }
        dandy::verif::nfa(alphabet, st, self.init)
    }
    /// read an Nfa back, checking that it is well-formed and has at most N states
    pub fn read(x: &Nfa, col: &[usize; K]) -> Self {
        let s = x.states();
        let n = s.len();
        check(n >= 1, "has a state");
        check(n <= N, "number of states within the expected maximum");
        check(x.alphabet().len() == K, "size of the alphabet");
        let init = x.initial_state_index();
        check(init < n, "initial state exists");
        let mut a = Self::empty();
        a.n = n;
        a.init = init;
        for i in 0..N {
            if i < n {
                check(s[i].is_initial() == (i == init), "initial flag set exactly on the initial state");
                check(s[i].transitions().len() == K, "a set of transitions for every symbol");
                a.acc[i] = s[i].is_accepting();
                for &j in s[i].epsilon_transitions() {
                    check(j < n, "target of an ε-move exists");
                    a.eps[i][j] = true;
                }
                for c in 0..K {
                    for &j in &s[i].transitions()[col[c]] {
                        check(j < n, "transition target exists");
                        a.t[i][c][j] = true;
                    }
                }
            }
        }
        a
    }
    /// reflexive-transitive closure of the ε-moves
    pub fn closure(&self) -> [[bool; N]; N] {
        let mut r = self.eps;
        for i in 0..N {
            r[i][i] = true;
        }
        for k in 0..N {
            for i in 0..N {
                for j in 0..N {
                    r[i][j] |= r[i][k] & r[k][j];
                }
            }
        }
        r
    }
    pub fn close(cl: &[[bool; N]; N], s: &[bool; N]) -> [bool; N] {
        let mut r = [false; N];
        for i in 0..N {
            for j in 0..N {
                r[j] |= s[i] & cl[i][j];
            }
        }
        r
    }
    pub fn start(&self, cl: &[[bool; N]; N]) -> [bool; N] {
        let mut r = [false; N];
        for i in 0..N {
            for j in 0..N {
                r[j] |= (i == self.init) & cl[i][j];
            }
        }
        r
    }
    /// the set after symbol c (nothing, if c is no symbol)
    pub fn step(&self, cl: &[[bool; N]; N], s: &[bool; N], c: usize) -> [bool; N] {
        let mut r = [false; N];
        for i in 0..N {
            for k in 0..K {
                for j in 0..N {
                    r[j] |= s[i] & (c == k) & self.t[i][k][j];
                }
            }
        }
        Self::close(cl, &r)
    }
    pub fn accepting(&self, s: &[bool; N]) -> bool {
        let mut x = false;
        for i in 0..N {
            x |= s[i] & self.acc[i];
        }
        x
    }
    /// acceptance of the word of n symbols in w; a symbol >= K is none of the alphabet
    pub fn accepts(&self, w: &[usize], n: usize) -> bool {
        let cl = self.closure();
        let mut s = self.start(&cl);
        let mut known = true;
        for i in 0..w.len() {
            let r = self.step(&cl, &s, w[i]);
            for j in 0..N {
                s[j] = if i < n { r[j] } else { s[j] };
            }
            known &= (i >= n) | (w[i] < K);
        }
        known & self.accepting(&s)
    }
    /// states reachable by any word
    pub fn reach(&self) -> [bool; N] {
        let mut r = [false; N];
        for i in 0..N {
            r[i] = i == self.init;
        }
        for _ in 1..N {
            let mut s = r;
            for i in 0..N {
                for j in 0..N {
                    let mut e = self.eps[i][j];
                    for c in 0..K {
                        e |= self.t[i][c][j];
                    }
                    s[j] |= r[i] & e;
                }
            }
            r = s;
        }
        r
    }
}
impl<const N: usize, const K: usize> D<N, K> {
    /// acceptance of the word of n symbols in w
    pub fn accepts(&self, w: &[usize], n: usize) -> bool {
        let mut s = [false; N];
        for i in 0..N {
            s[i] = i == self.init;
        }
        for p in 0..w.len() {
            let mut r = [false; N];
            for i in 0..N {
                for c in 0..K {
                    for j in 0..N {
                        r[j] |= s[i] & (w[p] == c) & (self.t[i][c] == j);
                    }
                }
            }
            for j in 0..N {
                s[j] = if p < n { r[j] } else { s[j] };
            }
        }
        let mut x = false;
        for i in 0..N {
            x |= s[i] & self.acc[i];
        }
        x
    }
}
/// any word over K symbols of at most L symbols
pub fn any_word<const L: usize>(k: usize) -> ([usize; L], usize) {
    let n = choice(L + 1);
    let mut w = [0; L];
    for i in 0..L {
        w[i] = choice(k);
    }
    (w, n)
}

/// names that tempt a careless combination of names to give two states the same: one joined to another by a comma, by
/// an underscore, by a hyphen, by nothing; names an operation may give itself
const POOL: [[&str; 10]; 4] = [
    ["x", "y", "z", "x,y", "y,z", "none", "s_new", "0", "1", "(x"],
    ["x", "y", "z", "xy", "yz", "none", "new", "1", "2", "12"],
    ["x", "y", "z", "x_y", "y_z", "None", "s_new", "3", "s_new_", "s_new0"],
    ["x", "y", "z", "x-y", "y-z", "", "q0", "-", "x'", "start"],
];
/// any distinct names of one family of POOL
pub fn any_names<const N: usize>(family: usize) -> [&'static str; N] {
    let mut v = [0; N];
    let mut n = [""; N];
    for i in 0..N {
        v[i] = choice(10);
        for j in 0..i {
            assume(v[i] != v[j]);
        }
        n[i] = POOL[family][v[i]];
    }
    n
}
