//! Values: concrete words, guarded sets of words ("summaries") and aggregates of those.
use crate::bdd::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    /// undefined / don't care
    U,
    C(u128),
    S(Rc<Sum>),
    A(Rc<Vec<V>>),
}

/// Alternatives sorted by value; guards are pairwise disjoint on every input for which the value is defined.
#[derive(Debug)]
pub struct Sum {
    pub a: Vec<(u128, G)>,
}

impl V {
    #[inline]
    pub fn c(&self) -> Option<u128> {
        match self {
            V::C(x) => Some(*x),
            _ => None,
        }
    }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::U, V::U) => true,
            (V::C(a), V::C(b)) => a == b,
            (V::S(a), V::S(b)) => Rc::ptr_eq(a, b),
            (V::A(a), V::A(b)) => Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y))),
            _ => false,
        }
    }
}

/// normalise a list of alternatives
pub fn mk(b: &mut Bdd, mut alts: Vec<(u128, G)>) -> V {
    alts.retain(|x| x.1 != F);
    if alts.is_empty() {
        return V::U;
    }
    if alts.len() == 1 {
        return V::C(alts[0].0);
    }
    alts.sort_by_key(|x| x.0);
    let mut out: Vec<(u128, G)> = Vec::with_capacity(alts.len());
    for (x, g) in alts {
        match out.last_mut() {
            Some(l) if l.0 == x => l.1 = b.or(l.1, g),
            _ => out.push((x, g)),
        }
    }
    if out.len() == 1 {
        return V::C(out[0].0);
    }
    if out.len() > 60000 {
        crate::fatal("too many alternatives for one value (inconclusive)");
    }
    V::S(Rc::new(Sum { a: out }))
}

/// value v on g1, w on g2 (g1, g2 disjoint); don't care elsewhere
pub fn merge(b: &mut Bdd, v: &V, g1: G, w: &V, g2: G) -> V {
    match (v, w) {
        (V::U, _) => w.clone(),
        (_, V::U) => v.clone(),
        (V::C(x), V::C(y)) if x == y => v.clone(),
        (V::S(x), V::S(y)) if Rc::ptr_eq(x, y) => v.clone(),
        (V::A(x), V::A(y)) => {
            if Rc::ptr_eq(x, y) {
                return v.clone();
            }
            V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| merge(b, p, g1, q, g2)).collect()))
        }
        (V::A(_), _) | (_, V::A(_)) => crate::fatal("merge of aggregate and scalar"),
        _ => {
            let mut alts = Vec::new();
            let mut push = |b: &mut Bdd, v: &V, g: G| match v {
                V::C(x) => alts.push((*x, g)),
                V::S(s) => {
                    for (x, h) in &s.a {
                        let k = b.and(*h, g);
                        if k != F {
                            alts.push((*x, k));
                        }
                    }
                }
                _ => {}
            };
            push(b, v, g1);
            push(b, w, g2);
            mk(b, alts)
        }
    }
}

/// apply f to every alternative
pub fn lift1(b: &mut Bdd, a: &V, f: &mut dyn FnMut(u128) -> u128) -> V {
    match a {
        V::U => V::U,
        V::C(x) => V::C(f(*x)),
        V::S(s) => {
            let alts: Vec<(u128, G)> = s.a.iter().map(|(x, g)| (f(*x), *g)).collect();
            mk(b, alts)
        }
        V::A(_) => crate::fatal("lift1 on aggregate"),
    }
}

/// apply f to every feasible pair of alternatives under pg
pub fn lift2(b: &mut Bdd, x: &V, y: &V, pg: G, f: &mut dyn FnMut(u128, u128) -> u128) -> V {
    match (x, y) {
        (V::U, _) | (_, V::U) => V::U,
        (V::C(p), V::C(q)) => V::C(f(*p, *q)),
        (V::C(p), V::S(_)) => {
            let p = *p;
            lift1(b, y, &mut |q| f(p, q))
        }
        (V::S(_), V::C(q)) => {
            let q = *q;
            lift1(b, x, &mut |p| f(p, q))
        }
        (V::S(p), V::S(q)) => {
            let mut alts = Vec::with_capacity(p.a.len());
            if p.a.len() == q.a.len() && p.a.iter().zip(q.a.iter()).all(|(m, n)| m.1 == n.1) {
                for ((u, g), (v, _)) in p.a.iter().zip(q.a.iter()) {
                    alts.push((f(*u, *v), *g));
                }
            } else {
                for (u, g) in &p.a {
                    for (v, h) in &q.a {
                        let k = b.and(*g, *h);
                        if k != F && !b.disjoint(k, pg) {
                            alts.push((f(*u, *v), k));
                        }
                    }
                }
            }
            mk(b, alts)
        }
        _ => crate::fatal("lift2 on aggregate"),
    }
}

/// keep only the alternatives possible under pg
pub fn prune(b: &mut Bdd, v: V, pg: G) -> V {
    match &v {
        V::S(s) => {
            let mut n = 0;
            let keep: Vec<bool> = s
                .a
                .iter()
                .map(|(_, g)| {
                    let k = !b.disjoint(*g, pg);
                    n += k as usize;
                    k
                })
                .collect();
            if n == s.a.len() {
                return v;
            }
            if n == 0 {
                return V::U;
            }
            let alts: Vec<(u128, G)> = s.a.iter().zip(keep).filter(|x| x.1).map(|x| *x.0).collect();
            if alts.len() == 1 {
                return V::C(alts[0].0);
            }
            V::S(Rc::new(Sum { a: alts }))
        }
        V::A(x) => {
            if x.iter().all(|e| matches!(e, V::C(_) | V::U)) {
                return v;
            }
            V::A(Rc::new(x.iter().map(|e| prune(b, e.clone(), pg)).collect()))
        }
        _ => v,
    }
}
