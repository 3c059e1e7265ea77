//! Block order (weak topological order, so that loops are drained before what follows them) and liveness.
use crate::ll::*;

pub fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Br(a) => vec![*a],
        Term::Cond(_, a, b) => vec![*a, *b],
        Term::Switch(_, d, cs) => {
            let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
            v.push(*d);
            v.sort();
            v.dedup();
            v
        }
        _ => vec![],
    }
}

/// Bourdoncle's recursive decomposition; produces for each block the lexicographic key of its position,
/// where the head of a component comes after the rest of the component.
struct Wto<'a> {
    succ: &'a [Vec<u32>],
}

impl<'a> Wto<'a> {
    /// strongly connected components of `nodes` (a membership mask) in topological order
    fn sccs(&self, roots: &[u32], inside: &[bool], skip: Option<u32>) -> Vec<Vec<u32>> {
        let n = self.succ.len();
        let mut index = vec![0u32; n];
        let mut low = vec![0u32; n];
        let mut onst = vec![false; n];
        let mut st: Vec<u32> = vec![];
        let mut next = 1u32;
        let mut out = vec![];
        for &r in roots {
            if index[r as usize] != 0 || !inside[r as usize] || Some(r) == skip {
                continue;
            }
            // iterative Tarjan
            let mut work: Vec<(u32, usize)> = vec![(r, 0)];
            index[r as usize] = next;
            low[r as usize] = next;
            next += 1;
            st.push(r);
            onst[r as usize] = true;
            while let Some(&(v, k)) = work.last() {
                let ss = &self.succ[v as usize];
                if k < ss.len() {
                    work.last_mut().unwrap().1 += 1;
                    let w = ss[k];
                    if !inside[w as usize] || Some(w) == skip {
                        continue;
                    }
                    if index[w as usize] == 0 {
                        index[w as usize] = next;
                        low[w as usize] = next;
                        next += 1;
                        st.push(w);
                        onst[w as usize] = true;
                        work.push((w, 0));
                    } else if onst[w as usize] {
                        low[v as usize] = low[v as usize].min(index[w as usize]);
                    }
                } else {
                    work.pop();
                    if let Some(&(p, _)) = work.last() {
                        low[p as usize] = low[p as usize].min(low[v as usize]);
                    }
                    if low[v as usize] == index[v as usize] {
                        let mut c = vec![];
                        loop {
                            let w = st.pop().unwrap();
                            onst[w as usize] = false;
                            c.push(w);
                            if w == v {
                                break;
                            }
                        }
                        // v, the first node reached, is the head: put it first
                        c.reverse();
                        out.push(c);
                    }
                }
            }
        }
        out.reverse();
        out
    }
    fn run(&self, roots: &[u32], inside: &[bool], skip: Option<u32>, out: &mut Vec<u32>) {
        for c in self.sccs(roots, inside, skip) {
            let h = c[0];
            let looped = c.len() > 1 || self.succ[h as usize].contains(&h);
            if !looped {
                out.push(h);
                continue;
            }
            let mut ins = vec![false; self.succ.len()];
            for &x in &c {
                ins[x as usize] = true;
            }
            let roots: Vec<u32> = self.succ[h as usize].iter().copied().filter(|x| ins[*x as usize] && *x != h).collect();
            let mut body = vec![];
            self.run(&roots, &ins, Some(h), &mut body);
            for &x in &c {
                if x != h && !body.contains(&x) {
                    body.push(x);
                }
            }
            out.extend(body);
            out.push(h);
        }
    }
}

fn uses_op(o: &Op, f: &mut impl FnMut(u32)) {
    if let Op::R(r) = o {
        f(*r)
    }
}

pub fn inst_uses(i: &Inst, f: &mut impl FnMut(u32)) {
    match i {
        Inst::Bin { a, b, .. } | Inst::Icmp { a, b, .. } => {
            uses_op(a, f);
            uses_op(b, f)
        }
        Inst::Cast { a, .. } | Inst::Copy { a, .. } | Inst::Extract { a, .. } => uses_op(a, f),
        Inst::Select { c, a, b, .. } => {
            uses_op(c, f);
            uses_op(a, f);
            uses_op(b, f)
        }
        Inst::Load { p, .. } => uses_op(p, f),
        Inst::Store { v, p, .. } => {
            uses_op(v, f);
            uses_op(p, f)
        }
        Inst::Alloca { .. } | Inst::Nop => {}
        Inst::Gep { base, idx, .. } => {
            uses_op(base, f);
            for (_, o, _) in idx {
                uses_op(o, f)
            }
        }
        Inst::Insert { a, v, .. } => {
            uses_op(a, f);
            uses_op(v, f)
        }
        Inst::ExtractEl { a, i, .. } => {
            uses_op(a, f);
            uses_op(i, f)
        }
        Inst::InsertEl { a, v, i, .. } => {
            uses_op(a, f);
            uses_op(v, f);
            uses_op(i, f)
        }
        Inst::Shuffle { a, b, .. } => {
            uses_op(a, f);
            uses_op(b, f)
        }
        Inst::Call { f: c, args, .. } => {
            if let Callee::Indirect(o) = c {
                uses_op(o, f)
            }
            for (_, o) in args {
                uses_op(o, f)
            }
        }
        Inst::Rmw { p, v, .. } => {
            uses_op(p, f);
            uses_op(v, f)
        }
        Inst::Cmpxchg { p, c, n, .. } => {
            uses_op(p, f);
            uses_op(c, f);
            uses_op(n, f)
        }
    }
}

pub fn inst_def(i: &Inst) -> u32 {
    match i {
        Inst::Bin { dst, .. }
        | Inst::Icmp { dst, .. }
        | Inst::Cast { dst, .. }
        | Inst::Select { dst, .. }
        | Inst::Load { dst, .. }
        | Inst::Alloca { dst, .. }
        | Inst::Gep { dst, .. }
        | Inst::Extract { dst, .. }
        | Inst::Insert { dst, .. }
        | Inst::ExtractEl { dst, .. }
        | Inst::InsertEl { dst, .. }
        | Inst::Shuffle { dst, .. }
        | Inst::Call { dst, .. }
        | Inst::Copy { dst, .. }
        | Inst::Rmw { dst, .. }
        | Inst::Cmpxchg { dst, .. } => *dst,
        Inst::Store { .. } | Inst::Nop => NOREG,
    }
}

pub fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(|b| succs(&b.term)).collect();
    let mut out = vec![];
    Wto { succ: &succ }.run(&[0], &vec![true; n], None, &mut out);
    let mut rank = n as u32;
    for (k, b) in out.iter().enumerate() {
        f.blocks[*b as usize].rank = k as u32;
        rank = rank.max(k as u32);
    }
    // liveness (bit sets)
    let words = (f.nregs as usize).div_ceil(64);
    let mut live = vec![vec![0u64; words]; n]; // live-in including phi destinations of the block
    let mut gen = vec![vec![0u64; words]; n];
    let mut kill = vec![vec![0u64; words]; n];
    let mut phidef = vec![vec![0u64; words]; n];
    for (k, b) in f.blocks.iter().enumerate() {
        let g = &mut gen[k];
        let kl = &mut kill[k];
        for i in &b.insts {
            inst_uses(i, &mut |r| {
                if kl[r as usize / 64] >> (r % 64) & 1 == 0 {
                    g[r as usize / 64] |= 1 << (r % 64)
                }
            });
            let d = inst_def(i);
            if d != NOREG {
                kl[d as usize / 64] |= 1 << (d % 64);
            }
        }
        let mut tu = |o: &Op| {
            if let Op::R(r) = o {
                if kl[*r as usize / 64] >> (r % 64) & 1 == 0 {
                    g[*r as usize / 64] |= 1 << (r % 64)
                }
            }
        };
        match &b.term {
            Term::Ret(Some(o)) | Term::Cond(o, _, _) | Term::Switch(o, _, _) => tu(o),
            _ => {}
        }
        for (_, l) in &b.phis {
            for (d, _) in l {
                phidef[k][*d as usize / 64] |= 1 << (d % 64);
            }
        }
    }
    // live[k] = gen ∪ (out − kill), where out = ∪ over successors s of (live[s] − phidef[s]) ∪ phi uses for k
    let mut order: Vec<usize> = out.iter().map(|x| *x as usize).collect();
    order.reverse();
    let mut changed = true;
    while changed {
        changed = false;
        for &k in &order {
            let mut o = vec![0u64; words];
            for &s in &succ[k] {
                let s = s as usize;
                for w in 0..words {
                    o[w] |= live[s][w] & !phidef[s][w];
                }
                for (p, l) in &f.blocks[s].phis {
                    if *p as usize == k {
                        for (_, op) in l {
                            if let Op::R(r) = op {
                                o[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                    }
                }
            }
            for w in 0..words {
                let v = gen[k][w] | (o[w] & !kill[k][w]);
                // phi destinations are part of the state handed over at the block's entry only when used
                if v != live[k][w] {
                    live[k][w] = v;
                    changed = true;
                }
            }
        }
    }
    for k in 0..n {
        let mut l = vec![];
        for w in 0..words {
            let mut x = live[k][w];
            while x != 0 {
                let b = x.trailing_zeros();
                l.push((w * 64) as u32 + b);
                x &= x - 1;
            }
        }
        f.blocks[k].live_in = l;
    }
    for k in 0..n {
        for &t in &succ[k] {
            let b = &f.blocks[t as usize];
            let ph = b.phis.iter().find(|x| x.0 as usize == k);
            let ops: Vec<Op> = b
                .live_in
                .iter()
                .map(|r| match ph.and_then(|p| p.1.iter().find(|x| x.0 == *r)) {
                    Some((_, o)) => o.clone(),
                    None => Op::R(*r),
                })
                .collect();
            f.blocks[t as usize].edges.push((k as u32, ops));
        }
    }
}
