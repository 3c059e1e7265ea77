//! Boolean guards: reduced ordered binary decision diagrams with complement edges.
//! A guard is the set of input assignments under which something holds. They are only a canonical
//! representation of path conditions; the verdicts are taken by the SMT solver on the exported formulas.

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct G(pub u32);
pub const T: G = G(0);
pub const F: G = G(1);

impl std::ops::Not for G {
    type Output = G;
    #[inline]
    fn not(self) -> G {
        G(self.0 ^ 1)
    }
}

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: G,
    hi: G,
}

pub struct Bdd {
    nodes: Vec<Node>,
    /// open addressing; node index in the low half, hash tag in the high half; 0 is free
    table: Vec<u64>,
    mask: usize,
    and_cache: Vec<(u32, u32, u32)>,
    and_mask: usize,
    dis_cache: Vec<(u32, u32, u32)>,
    dis_mask: usize,
    pub nvars: u32,
    pub node_limit: usize,
    pub ands: u64,
    /// nodes ever made
    pub made: u64,
    free: Vec<u32>,
    /// live nodes after the last collection
    pub live: usize,
    marks: Vec<u64>,
}
const FREE: u32 = u32::MAX - 1;

#[inline]
fn h3(a: u32, b: u32, c: u32) -> usize {
    let mut x = (a as u64).wrapping_mul(0x9E3779B97F4A7C15);
    x ^= (b as u64).wrapping_mul(0xC2B2AE3D27D4EB4F).rotate_left(23);
    x = x.wrapping_add((c as u64).wrapping_mul(0x165667B19E3779F9).rotate_left(41));
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    (x ^ (x >> 32)) as usize
}

impl Bdd {
    pub fn new() -> Self {
        let cap = 1 << 16;
        Bdd {
            nodes: vec![Node { var: u32::MAX, lo: T, hi: T }],
            table: vec![0; cap],
            mask: cap - 1,
            and_cache: vec![(u32::MAX, 0, 0); 1 << 18],
            and_mask: (1 << 18) - 1,
            dis_cache: vec![(u32::MAX, 0, 0); 1 << 17],
            dis_mask: (1 << 17) - 1,
            nvars: 0,
            node_limit: 150_000_000,
            ands: 0,
            made: 0,
            free: vec![],
            live: 0,
            marks: vec![],
        }
    }
    pub fn empty() -> Self {
        Bdd {
            nodes: vec![],
            table: vec![],
            mask: 0,
            and_cache: vec![],
            and_mask: 0,
            dis_cache: vec![],
            dis_mask: 0,
            nvars: 0,
            node_limit: 0,
            ands: 0,
            made: 0,
            free: vec![],
            live: 0,
            marks: vec![],
        }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    /// nodes in use now
    pub fn in_use(&self) -> usize {
        self.nodes.len() - self.free.len()
    }
    pub fn mark_begin(&mut self) {
        self.marks.clear();
        self.marks.resize(self.nodes.len() / 64 + 1, 0);
    }
    pub fn mark(&mut self, g: G) {
        let mut st = vec![g.0 >> 1];
        while let Some(i) = st.pop() {
            if i == 0 {
                continue;
            }
            let (w, b) = (i as usize / 64, 1u64 << (i % 64));
            if self.marks[w] & b != 0 {
                continue;
            }
            self.marks[w] |= b;
            let n = self.nodes[i as usize];
            st.push(n.hi.0 >> 1);
            st.push(n.lo.0 >> 1);
        }
    }
    /// free every node that was not marked
    pub fn sweep(&mut self) {
        self.free.clear();
        let mut last = 0;
        for i in 1..self.nodes.len() {
            if self.marks[i / 64] >> (i % 64) & 1 == 0 {
                self.nodes[i].var = FREE;
            } else {
                last = i;
            }
        }
        self.nodes.truncate(last + 1);
        for i in (1..self.nodes.len()).rev() {
            if self.nodes[i].var == FREE {
                self.free.push(i as u32);
            }
        }
        self.live = self.nodes.len() - self.free.len();
        let mut cap = 1 << 16;
        while cap < self.nodes.len() * 2 {
            cap *= 2;
        }
        self.table = vec![0; cap / 2];
        self.and_cache.fill((u32::MAX, 0, 0));
        self.dis_cache.fill((u32::MAX, 0, 0));
        self.grow();
    }
    pub fn new_var(&mut self) -> G {
        let v = self.nvars;
        self.nvars += 1;
        self.mk(v, F, T)
    }
    fn grow(&mut self) {
        let cap = self.table.len() * 2;
        self.table = vec![0; cap];
        self.mask = cap - 1;
        for i in 1..self.nodes.len() {
            let n = self.nodes[i];
            if n.var == FREE {
                continue;
            }
            let x = h3(n.var, n.lo.0, n.hi.0);
            let mut h = x & self.mask;
            while self.table[h] != 0 {
                h = (h + 1) & self.mask;
            }
            self.table[h] = (x as u64 & 0xffff_ffff_0000_0000) | i as u64;
        }
        if self.nodes.len() > self.and_cache.len() && self.and_cache.len() < (1 << 21) {
            let c = self.and_cache.len() * 4;
            let old = std::mem::replace(&mut self.and_cache, vec![(u32::MAX, 0, 0); c]);
            self.and_mask = c - 1;
            for e in old {
                if e.0 != u32::MAX {
                    let h = h3(e.0, e.1, 7) & self.and_mask;
                    self.and_cache[h] = e;
                }
            }
            let c = c / 2;
            self.dis_cache = vec![(u32::MAX, 0, 0); c];
            self.dis_mask = c - 1;
        }
    }
    fn mk(&mut self, var: u32, lo: G, hi: G) -> G {
        if lo == hi {
            return lo;
        }
        // canonical form: the high edge is regular
        let (lo, hi, c) = if hi.0 & 1 == 1 { (!lo, !hi, 1) } else { (lo, hi, 0) };
        let x = h3(var, lo.0, hi.0);
        let tag = x as u64 & 0xffff_ffff_0000_0000;
        let mut h = x & self.mask;
        loop {
            let e = self.table[h];
            if e == 0 {
                break;
            }
            if e & 0xffff_ffff_0000_0000 == tag {
                let i = e as u32;
                let n = self.nodes[i as usize];
                if n.var == var && n.lo == lo && n.hi == hi {
                    return G(i << 1 | c);
                }
            }
            h = (h + 1) & self.mask;
        }
        let i = match self.free.pop() {
            Some(i) => {
                self.nodes[i as usize] = Node { var, lo, hi };
                i
            }
            None => {
                if self.nodes.len() >= self.node_limit {
                    crate::fatal("guard diagram node limit reached (inconclusive)");
                }
                self.nodes.push(Node { var, lo, hi });
                self.nodes.len() as u32 - 1
            }
        };
        self.made += 1;
        self.table[h] = tag | i as u64;
        if self.nodes.len() * 2 > self.table.len() {
            self.grow();
        }
        G(i << 1 | c)
    }
    #[inline]
    pub fn var(&self, g: G) -> u32 {
        self.nodes[(g.0 >> 1) as usize].var
    }
    #[inline]
    pub fn lo(&self, g: G) -> G {
        G(self.nodes[(g.0 >> 1) as usize].lo.0 ^ (g.0 & 1))
    }
    #[inline]
    pub fn hi(&self, g: G) -> G {
        G(self.nodes[(g.0 >> 1) as usize].hi.0 ^ (g.0 & 1))
    }
    pub fn and(&mut self, a: G, b: G) -> G {
        if a == b || b == T {
            return a;
        }
        if a == T {
            return b;
        }
        if a == F || b == F || a.0 ^ b.0 == 1 {
            return F;
        }
        let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) };
        let h = h3(a.0, b.0, 7) & self.and_mask;
        let e = self.and_cache[h];
        if e.0 == a.0 && e.1 == b.0 {
            return G(e.2);
        }
        self.ands += 1;
        let va = self.var(a);
        let vb = self.var(b);
        let v = va.min(vb);
        let (a0, a1) = if va == v { (self.lo(a), self.hi(a)) } else { (a, a) };
        let (b0, b1) = if vb == v { (self.lo(b), self.hi(b)) } else { (b, b) };
        let lo = self.and(a0, b0);
        let hi = self.and(a1, b1);
        let r = self.mk(v, lo, hi);
        let h = h3(a.0, b.0, 7) & self.and_mask;
        self.and_cache[h] = (a.0, b.0, r.0);
        r
    }
    #[inline]
    pub fn or(&mut self, a: G, b: G) -> G {
        !self.and(!a, !b)
    }
    #[inline]
    pub fn diff(&mut self, a: G, b: G) -> G {
        self.and(a, !b)
    }
    /// a and b have no assignment in common
    pub fn disjoint(&mut self, a: G, b: G) -> bool {
        if a == F || b == F || a.0 ^ b.0 == 1 {
            return true;
        }
        if a == b || a == T || b == T {
            return false;
        }
        let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) };
        let h = h3(a.0, b.0, 7) & self.and_mask;
        let e = self.and_cache[h];
        if e.0 == a.0 && e.1 == b.0 {
            return e.2 == F.0;
        }
        let h = h3(a.0, b.0, 3) & self.dis_mask;
        let e = self.dis_cache[h];
        if e.0 == a.0 && e.1 == b.0 {
            return e.2 == 1;
        }
        let va = self.var(a);
        let vb = self.var(b);
        let v = va.min(vb);
        let (a0, a1) = if va == v { (self.lo(a), self.hi(a)) } else { (a, a) };
        let (b0, b1) = if vb == v { (self.lo(b), self.hi(b)) } else { (b, b) };
        let r = self.disjoint(a0, b0) && self.disjoint(a1, b1);
        self.dis_cache[h] = (a.0, b.0, r as u32);
        r
    }
    #[inline]
    pub fn implies(&mut self, a: G, b: G) -> bool {
        self.disjoint(a, !b)
    }
    pub fn eval(&self, g: G, asg: &[bool]) -> bool {
        let mut g = g;
        while g.0 > 1 {
            let v = self.var(g) as usize;
            g = if asg[v] { self.hi(g) } else { self.lo(g) };
        }
        g == T
    }
    /// number of satisfying assignments as a fraction of all (f64)
    pub fn density(&self, g: G, memo: &mut std::collections::HashMap<u32, f64>) -> f64 {
        if g == T {
            return 1.0;
        }
        if g == F {
            return 0.0;
        }
        if g.0 & 1 == 1 {
            return 1.0 - self.density(!g, memo);
        }
        if let Some(x) = memo.get(&g.0) {
            return *x;
        }
        let r = 0.5 * self.density(self.lo(g), memo) + 0.5 * self.density(self.hi(g), memo);
        memo.insert(g.0, r);
        r
    }
    /// random satisfying assignment, uniform over the satisfying set
    pub fn sample(&self, g: G, rng: &mut u64, memo: &mut std::collections::HashMap<u32, f64>) -> Option<Vec<bool>> {
        if g == F {
            return None;
        }
        let mut asg: Vec<bool> = (0..self.nvars).map(|_| rnd(rng) & 1 == 1).collect();
        let mut g = g;
        while g.0 > 1 {
            let v = self.var(g) as usize;
            let l = self.density(self.lo(g), memo);
            let h = self.density(self.hi(g), memo);
            let x = (rnd(rng) >> 11) as f64 / (1u64 << 53) as f64 * (l + h);
            let take_hi = x >= l && h > 0.0;
            asg[v] = take_hi;
            g = if take_hi { self.hi(g) } else { self.lo(g) };
        }
        Some(asg)
    }
    /// nodes reachable from the given guards, in children-first order
    pub fn reachable(&self, gs: &[G], limit: usize) -> Option<Vec<u32>> {
        let mut seen = std::collections::HashSet::new();
        let mut order = vec![];
        let mut stack: Vec<(u32, bool)> = vec![];
        for g in gs {
            stack.push((g.0 >> 1, false));
            while let Some((n, done)) = stack.pop() {
                if n == 0 {
                    continue;
                }
                if done {
                    order.push(n);
                    continue;
                }
                if !seen.insert(n) {
                    continue;
                }
                if seen.len() > limit {
                    return None;
                }
                stack.push((n, true));
                let nd = self.nodes[n as usize];
                stack.push((nd.lo.0 >> 1, false));
                stack.push((nd.hi.0 >> 1, false));
            }
        }
        Some(order)
    }
    pub fn node(&self, i: u32) -> (u32, G, G) {
        let n = self.nodes[i as usize];
        (n.var, n.lo, n.hi)
    }
}

pub fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545F4914F6CDD1D)
}
