//! The symbolic interpreter: all paths are followed together, joining at control-flow joins.
use crate::bdd::*;
use crate::ll::*;
use crate::mem::*;
use crate::value::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct Event {
    pub kind: &'static str,
    pub msg: String,
    /// path conditions under which the site was reached, with the condition required there
    pub pairs: Vec<(G, G)>,
    pub reach: G,
    pub fail: G,
    pub stack: String,
}

pub struct Choice {
    pub pg: G,
    pub vars: Vec<G>,
    pub k: u64,
}

pub struct Engine {
    pub m: Module,
    pub b: Bdd,
    pub objs: Vec<Obj>,
    pub heap_classes: HashMap<u64, Vec<u32>>,
    stack_classes: HashMap<u64, Vec<u32>>,
    pub pg: G,
    pub world: G,
    pub assume: Vec<(G, G)>,
    pub events: BTreeMap<String, Event>,
    pub covers_ev: BTreeMap<String, G>,
    pub choices: Vec<Choice>,
    pub observes: Vec<(G, V)>,
    pub slice: (u64, u64),
    pub pin: std::collections::VecDeque<i64>,
    /// for debugging: print the branches taken by the path of these choices
    pub watch: Option<(std::collections::VecDeque<u64>, Vec<bool>)>,
    pub called: HashMap<u32, u64>,
    pub steps: u64,
    pub allocs: u64,
    pub stack: Vec<u32>,
    builtins: HashMap<u32, Option<Builtin>>,
    pub start: std::time::Instant,
    pub time_limit: f64,
    pub loop_limit: u32,
    pub trace: bool,
    pub prof: HashMap<u32, (u64, f64)>,
    pub max_alts: usize,
    errno: u64,
    pub sliced: bool,
    pub prof_on: bool,
    frames: Vec<*const Frame>,
    /// values are held in places the collector cannot see
    nogc: u32,
    pub gcs: u32,
    gc_next: usize,
}

/// what one activation keeps alive
struct Frame {
    regs: Vec<V>,
    pend: BTreeMap<u32, (u32, G, Vec<V>)>,
    ret: Option<(G, V)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Builtin {
    Nop,
    Print(bool),
    Zero,
    Panic,
    Abort,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Choice,
    Slice,
    Assume,
    Assert,
    Cover,
    Observe,
    Getrandom,
    Clock,
    Syscall,
    Write,
    Errno,
    Ident,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    OvUAdd,
    OvUSub,
    OvUMul,
    OvSAdd,
    OvSSub,
    OvSMul,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    Scmp,
    Ucmp,
    Trap,
    Objsize,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceUMax,
    ReduceUMin,
    ReduceMul,
    FloatFn(u8),
    Fma,
    IsConstant,
    FptoSat(bool),
    Strip,
}

fn wm(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn binop(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    use BinOp::*;
    let m = wm(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => {
            if b == 0 {
                0
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                0
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                0
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                0
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b as u32) & m
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b as u32
            }
        }
        AShr => {
            if b >= w as u128 {
                0
            } else {
                (sx(a, w) >> b as u32) as u128 & m
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        FAdd | FSub | FMul | FDiv | FRem | FNeg => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op {
                    FAdd => x + y,
                    FSub => x - y,
                    FMul => x * y,
                    FDiv => x / y,
                    FRem => x % y,
                    _ => -x,
                };
                r.to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                let r = match op {
                    FAdd => x + y,
                    FSub => x - y,
                    FMul => x * y,
                    FDiv => x / y,
                    FRem => x % y,
                    _ => -x,
                };
                r.to_bits() as u128
            }
        }
    }
}

fn icmp(p: Pred, w: u32, a: u128, b: u128) -> u128 {
    (match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::F(k) => {
            let (x, y) = if w == 32 {
                (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
            } else {
                (f64::from_bits(a as u64), f64::from_bits(b as u64))
            };
            let bit = match x.partial_cmp(&y) {
                None => 8,
                Some(std::cmp::Ordering::Equal) => 1,
                Some(std::cmp::Ordering::Greater) => 2,
                Some(std::cmp::Ordering::Less) => 4,
            };
            k & bit != 0
        }
    }) as u128
}

/// all ones but for some low bits
fn is_high_mask(k: u128, ones: u128) -> bool {
    let low = !k & ones;
    low != 0 && low & (low + 1) == 0 && k != 0
}

impl Engine {
    pub fn new(m: Module) -> Engine {
        let mut objs = vec![];
        for g in 0..m.globals.len() {
            let mut o = Obj::new(0, T, false);
            o.lazy_global = true;
            let _ = g;
            objs.push(o);
        }
        Engine {
            m,
            b: Bdd::new(),
            objs,
            heap_classes: HashMap::new(),
            stack_classes: HashMap::new(),
            pg: T,
            world: T,
            assume: vec![],
            events: BTreeMap::new(),
            covers_ev: BTreeMap::new(),
            choices: vec![],
            observes: vec![],
            slice: (0, 1),
            pin: Default::default(),
            watch: None,
            called: HashMap::new(),
            steps: 0,
            allocs: 0,
            stack: vec![],
            builtins: HashMap::new(),
            start: std::time::Instant::now(),
            time_limit: 800.0,
            loop_limit: 4000,
            trace: false,
            prof: HashMap::new(),
            max_alts: 0,
            errno: 0,
            sliced: false,
            prof_on: false,
            frames: vec![],
            nogc: 0,
            gcs: 0,
            gc_next: 1_500_000,
        }
    }

    pub fn materialise(&mut self, oi: u32) {
        let (v, ty) = self.m.global_init(oi);
        let size = self.m.types.size(ty);
        self.objs[oi as usize] = Obj::new(size, T, false);
        if let Some(v) = v {
            let pg = std::mem::replace(&mut self.pg, T);
            let w = std::mem::replace(&mut self.world, T);
            self.store_ty_c(obj_addr(oi), ty, &v);
            self.pg = pg;
            self.world = w;
        } else {
            // external data (weak symbols and the like): zero
            self.objs[oi as usize].st.fill(1);
        }
    }

    pub fn where_(&self) -> String {
        let mut s = String::new();
        for f in self.stack.iter().rev().take(10) {
            if !s.is_empty() {
                s.push_str(" < ");
            }
            s.push_str(&short(&self.m.funcs[*f as usize].name));
        }
        s
    }

    /// record that the whole current path ends here abnormally
    pub fn die(&mut self, kind: &'static str, msg: &str) {
        let stack = self.where_();
        let pg = self.b.and(self.pg, self.world);
        if pg != F {
            let key = format!("{kind}: {msg}");
            let e = self.events.entry(key).or_insert(Event {
                kind,
                msg: msg.to_string(),
                pairs: vec![],
                reach: F,
                fail: F,
                stack,
            });
            e.reach = self.b.or(e.reach, pg);
            e.fail = self.b.or(e.fail, pg);
            e.pairs.push((pg, F));
            self.world = self.b.diff(self.world, pg);
        }
        self.pg = F;
    }
    pub fn mem_error(&mut self, msg: &str) {
        let f = self.stack.last().map(|f| short(&self.m.funcs[*f as usize].name)).unwrap_or_default();
        self.die("memory error", &format!("{msg} in {f}"));
    }

    #[inline]
    fn get<'a>(&self, regs: &'a [V], o: &'a Op) -> &'a V {
        match o {
            Op::R(r) => &regs[*r as usize],
            Op::K(v) => v,
        }
    }

    /// feasible alternatives of a scalar under the current path
    pub fn alts(&mut self, v: &V) -> Vec<(u128, G)> {
        match v {
            V::C(x) => vec![(*x, self.pg)],
            V::S(s) => {
                let mut out = vec![];
                for (x, g) in &s.a {
                    let k = self.b.and(*g, self.pg);
                    if k != F {
                        out.push((*x, k));
                    }
                }
                out
            }
            V::U => vec![],
            V::A(_) => crate::fatal("alts of aggregate"),
        }
    }

    /// run f for every alternative of v, with the path narrowed; paths surviving are joined
    fn for_alts(&mut self, v: &V, what: &str, f: &mut dyn FnMut(&mut Engine, u128)) {
        match v {
            V::C(x) => f(self, *x),
            V::U => {
                if self.pg != F && !self.b.disjoint(self.pg, self.world) {
                    self.die("undefined value", &format!("{what} uses an undefined value"));
                } else {
                    self.pg = F;
                }
            }
            _ => {
                let al = self.alts(v);
                let save = self.pg;
                self.nogc += 1;
                let mut out = F;
                let mut lost = false;
                for (x, g) in al {
                    self.pg = g;
                    f(self, x);
                    if self.pg != g {
                        lost = true;
                    }
                    out = self.b.or(out, self.pg);
                }
                self.nogc -= 1;
                self.pg = if lost { out } else { save };
            }
        }
    }

    // ---- typed memory access -------------------------------------------------------------
    pub fn store_ty_c(&mut self, addr: u64, ty: TyId, v: &V) {
        match self.m.types.ty(ty).clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_) => {
                let n = (self.m.types.bits(ty) as u64).div_ceil(8) as usize;
                self.store_c(addr, n, v.clone());
            }
            Ty::Arr(_, e) => {
                let sz = self.m.types.size(e);
                if let V::A(x) = v {
                    let x = x.clone();
                    if sz == 1 && x.iter().all(|y| matches!(y, V::C(_))) && x.len() > 8 {
                        if let Some((oi, off)) = self.resolve(addr, x.len() as u64, "write") {
                            if self.covers(oi) && self.objs[oi as usize].syms.is_empty() {
                                let o = &mut self.objs[oi as usize];
                                for (k, y) in x.iter().enumerate() {
                                    o.data[off + k] = y.c().unwrap() as u8;
                                    o.st[off + k] = 1;
                                }
                                return;
                            }
                        }
                    }
                    for (k, y) in x.iter().enumerate() {
                        self.store_ty_c(addr + k as u64 * sz, e, y);
                    }
                }
            }
            Ty::Vec(n, e) => {
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    let pv = self.pack(v, w, n);
                    let len = (w * n).div_ceil(8) as usize;
                    self.store_c(addr, len, pv);
                    return;
                }
                if let V::A(x) = v {
                    for (k, y) in x.clone().iter().enumerate() {
                        self.store_ty_c(addr + k as u64 * (w / 8) as u64, e, y);
                    }
                }
            }
            Ty::Struct(es, _) => {
                let offs = self.m.types.info[ty as usize].offs.clone();
                if let V::A(x) = v {
                    for (k, y) in x.clone().iter().enumerate() {
                        self.store_ty_c(addr + offs[k], es[k], y);
                    }
                }
            }
            _ => crate::fatal("store type"),
        }
    }
    pub fn load_ty_c(&mut self, addr: u64, ty: TyId) -> V {
        match self.m.types.ty(ty).clone() {
            Ty::Int(w) => {
                let n = (w as u64).div_ceil(8) as usize;
                let v = self.load_c(addr, n);
                if w % 8 != 0 {
                    let m = wm(w);
                    if let V::C(x) = v {
                        return V::C(x & m);
                    }
                    return lift1(&mut self.b, &v, &mut |x| x & m);
                }
                v
            }
            Ty::Ptr | Ty::F64 => self.load_c(addr, 8),
            Ty::F32 => self.load_c(addr, 4),
            Ty::FOther(b) => self.load_c(addr, (b / 8) as usize),
            Ty::Arr(n, e) => {
                let sz = self.m.types.size(e);
                V::A(Rc::new((0..n).map(|k| self.load_ty_c(addr + k * sz, e)).collect()))
            }
            Ty::Vec(n, e) => {
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    let v = self.load_c(addr, (w * n).div_ceil(8) as usize);
                    return self.unpack(&v, w, n);
                }
                V::A(Rc::new((0..n).map(|k| self.load_ty_c(addr + k as u64 * (w / 8) as u64, e)).collect()))
            }
            Ty::Struct(es, _) => {
                let offs = self.m.types.info[ty as usize].offs.clone();
                V::A(Rc::new(es.iter().enumerate().map(|(k, e)| self.load_ty_c(addr + offs[k], *e)).collect()))
            }
            _ => crate::fatal("load type"),
        }
    }
    fn pack(&mut self, v: &V, w: u32, n: u32) -> V {
        let V::A(x) = v else { return v.clone() };
        if w * n > 128 {
            crate::fatal("pack wider than 128 bits");
        }
        let mut acc = V::C(0);
        for (k, e) in x.iter().enumerate() {
            let sh = k as u32 * w;
            let p = match e {
                V::U => V::C(0),
                e => lift1(&mut self.b, e, &mut |q| q << sh),
            };
            acc = lift2(&mut self.b, &acc, &p, self.pg, &mut |a, b| a | b);
        }
        acc
    }
    fn unpack(&mut self, v: &V, w: u32, n: u32) -> V {
        let m = wm(w);
        V::A(Rc::new((0..n).map(|k| lift1(&mut self.b, v, &mut |x| (x >> (k * w)) & m)).collect()))
    }
    /// reinterpret a vector/scalar as a list of n elements of w bits
    fn regroup(&mut self, v: &V, fw: u32, fnum: u32, tw: u32, tn: u32) -> Vec<V> {
        let els: Vec<V> = match v {
            V::A(x) => x.iter().cloned().collect(),
            o => vec![o.clone(); 1],
        };
        if els.len() == 1 && fnum > 1 {
            return vec![V::U; tn as usize];
        }
        if fw == tw {
            return els;
        }
        if fw > tw {
            let m = wm(tw);
            let mut out = vec![];
            for e in &els {
                for k in 0..fw / tw {
                    out.push(lift1(&mut self.b, e, &mut |x| (x >> (k * tw)) & m));
                }
            }
            return out;
        }
        let per = (tw / fw) as usize;
        els.chunks(per).map(|c| self.pack(&V::A(Rc::new(c.to_vec())), fw, per as u32)).collect()
    }
    fn el_ty(&self, t: TyId) -> (u32, u32, bool) {
        match self.m.types.ty(t) {
            Ty::Vec(n, e) => (self.m.types.bits(*e), *n, true),
            _ => (self.m.types.bits(t), 1, false),
        }
    }

    fn map1(&mut self, a: &V, f: &mut dyn FnMut(u128) -> u128) -> V {
        match a {
            V::A(x) => V::A(Rc::new(x.iter().map(|e| lift1(&mut self.b, e, f)).collect())),
            _ => lift1(&mut self.b, a, f),
        }
    }
    fn map2(&mut self, a: &V, c: &V, f: &mut dyn FnMut(u128, u128) -> u128) -> V {
        match (a, c) {
            (V::A(x), V::A(y)) => {
                V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| lift2(&mut self.b, p, q, self.pg, f)).collect()))
            }
            _ => lift2(&mut self.b, a, c, self.pg, f),
        }
    }

    /// guard under which v is nonzero
    pub fn truth(&mut self, v: &V) -> (G, G) {
        match v {
            V::C(0) => (F, T),
            V::C(_) => (T, F),
            V::S(s) => {
                let mut t = F;
                let mut f = F;
                for (x, g) in &s.a {
                    if *x != 0 {
                        t = self.b.or(t, *g)
                    } else {
                        f = self.b.or(f, *g)
                    }
                }
                (t, f)
            }
            _ => (F, F),
        }
    }

    fn select(&mut self, c: &V, a: &V, d: &V) -> V {
        match c {
            V::C(0) => d.clone(),
            V::C(_) => a.clone(),
            V::U => V::U,
            V::S(_) => {
                let (t, f) = self.truth(c);
                if self.b.disjoint(t, self.pg) {
                    return d.clone();
                }
                if self.b.disjoint(f, self.pg) {
                    return a.clone();
                }
                merge(&mut self.b, a, t, d, f)
            }
            V::A(cs) => {
                let (V::A(x), V::A(y)) = (a, d) else { crate::fatal("vector select") };
                let (x, y) = (x.clone(), y.clone());
                V::A(Rc::new(cs.iter().enumerate().map(|(k, c)| self.select(c, &x[k], &y[k])).collect()))
            }
        }
    }

    pub fn addr_alts(&mut self, p: &V) -> Vec<(u128, G)> {
        match p {
            V::S(s) => {
                let mut out = vec![];
                for (x, g) in &s.a {
                    if !self.b.disjoint(*g, self.pg) {
                        out.push((*x, *g));
                    }
                }
                out
            }
            V::C(x) => vec![(*x, T)],
            _ => vec![],
        }
    }

    fn load(&mut self, ty: TyId, p: &V) -> V {
        match p {
            V::C(a) => self.load_ty_c(*a as u64, ty),
            V::S(_) => {
                let al = self.addr_alts(p);
                let save = self.pg;
                let mut acc: Option<(G, V)> = None;
                let mut lost = F;
                for (a, g) in al {
                    let k = self.b.and(g, save);
                    self.pg = k;
                    let v = self.load_ty_c(a as u64, ty);
                    if self.pg != k {
                        let d = self.b.diff(k, self.pg);
                        lost = self.b.or(lost, d);
                        if self.pg == F {
                            continue;
                        }
                    }
                    acc = Some(match acc {
                        None => (g, v),
                        Some((ag, av)) => {
                            let m = merge(&mut self.b, &av, ag, &v, g);
                            (self.b.or(ag, g), m)
                        }
                    });
                }
                self.pg = if lost == F { save } else { self.b.diff(save, lost) };
                acc.map(|x| x.1).unwrap_or(V::U)
            }
            _ => {
                self.die("undefined value", "load address is undefined");
                V::U
            }
        }
    }

    fn store(&mut self, ty: TyId, v: &V, p: &V) {
        match p {
            V::C(a) => self.store_ty_c(*a as u64, ty, v),
            _ => {
                let v = v.clone();
                self.for_alts(p, "store address", &mut |e, a| {
                    let v = prune(&mut e.b, v.clone(), e.pg);
                    e.store_ty_c(a as u64, ty, &v)
                });
            }
        }
    }

    pub fn call(&mut self, f: u32, args: Vec<V>, tys: &[TyId], ret: TyId) -> V {
        let bi = match self.builtins.get(&f) {
            Some(b) => *b,
            None => {
                let b = crate::intrin::classify(&self.m.funcs[f as usize].name);
                self.builtins.insert(f, b);
                b
            }
        };
        if let Some(Builtin::Print(error)) = bi {
            if let Some(g) = self.m.find_fn(if error { "vx_eprint" } else { "vx_print" }) {
                return self.call(g, args, tys, ret);
            }
        }
        if let Some(bi) = bi {
            self.stack.push(f);
            let r = self.builtin(bi, &args, tys, ret);
            self.stack.pop();
            return r;
        }
        if self.m.funcs[f as usize].body.is_none() {
            if self.b.disjoint(self.pg, self.world) {
                self.pg = F;
                return V::U;
            }
            crate::fatal(&format!("call of unknown external function {} from {}", self.m.funcs[f as usize].name, self.where_()));
        }
        *self.called.entry(f).or_insert(0) += 1;
        if self.stack.len() > 4000 {
            self.die("stack overflow", "call depth over 4000");
            return V::U;
        }
        self.stack.push(f);
        let r = if self.prof_on {
            let t = std::time::Instant::now();
            let r = self.run(f, args);
            let e = self.prof.entry(f).or_insert((0, 0.0));
            e.0 += 1;
            e.1 += t.elapsed().as_secs_f64();
            r
        } else {
            self.run(f, args)
        };
        self.stack.pop();
        r
    }

    fn run(&mut self, fid: u32, args: Vec<V>) -> V {
        let fu = self.m.func(fid);
        let mut fr = Frame { regs: vec![V::U; fu.nregs as usize], pend: BTreeMap::new(), ret: None };
        for (p, a) in fu.params.iter().zip(args) {
            fr.regs[*p as usize] = a;
        }
        self.frames.push(&fr as *const Frame);
        let mut allocas: Vec<u32> = vec![];
        let mut cur: u32 = 0;
        let mut vals: Vec<V> = vec![];
        let mut blocks_run = 0u32;
        let mut counts: Vec<u32> = vec![];
        loop {
            let blk = &fu.blocks[cur as usize];
            blocks_run += 1;
            if blocks_run > self.loop_limit {
                // a long-running frame: bound the iterations of each block
                if counts.is_empty() {
                    counts = vec![0; fu.blocks.len()];
                }
                counts[cur as usize] += 1;
                if counts[cur as usize] > self.loop_limit {
                    counts[cur as usize] = 0;
                    self.die("loop bound", &format!("more than {} iterations in {}", self.loop_limit, self.fname()));
                }
            }
            if self.nogc == 0 && self.b.in_use() > self.gc_next {
                let mut keep = vec![false; fr.regs.len()];
                for r in &blk.live_in {
                    keep[*r as usize] = true;
                }
                for (r, k) in fr.regs.iter_mut().zip(keep) {
                    if !k {
                        *r = V::U;
                    }
                }
                self.collect();
            }
            for inst in &blk.insts {
                if self.pg == F {
                    break;
                }
                self.inst(inst, &mut fr.regs, &mut allocas);
                if self.pg == F {
                    break;
                }
            }
            self.steps += blk.insts.len() as u64 + 1;
            if self.steps & 0xffff < 64 {
                let t = self.start.elapsed().as_secs_f64();
                if t > self.time_limit {
                    crate::fatal(&format!("time limit of {} s reached in {} (inconclusive)", self.time_limit, self.where_()));
                }
            }
            let mut next: Option<u32> = None;
            if self.pg != F {
                let mut edges: Vec<(u32, G)> = vec![];
                match &blk.term {
                    Term::Ret(o) => {
                        let v = match o {
                            Some(o) => self.get(&fr.regs, o).clone(),
                            None => V::U,
                        };
                        fr.ret = Some(match fr.ret.take() {
                            None => (self.pg, v),
                            Some((g, w)) => {
                                let x = merge(&mut self.b, &w, g, &v, self.pg);
                                (self.b.or(g, self.pg), x)
                            }
                        });
                    }
                    Term::Br(t) => edges.push((*t, self.pg)),
                    Term::Cond(c, a, d) => {
                        let c = self.get(&fr.regs, c).clone();
                        match c {
                            V::C(x) => edges.push((if x & 1 == 1 { *a } else { *d }, self.pg)),
                            V::S(_) => {
                                let (t, f) = self.truth(&c);
                                let gt = self.b.and(self.pg, t);
                                let gf = self.b.and(self.pg, f);
                                self.check_cover(gt, gf);
                                if *a == *d {
                                    edges.push((*a, self.pg));
                                } else {
                                    if gt != F {
                                        edges.push((*a, gt));
                                    }
                                    if gf != F {
                                        edges.push((*d, gf));
                                    }
                                }
                            }
                            _ => {
                                if std::env::var("VX_DEBUG").is_ok() {
                                    let ps: Vec<u32> = (0..fu.blocks.len() as u32).filter(|b| fu.blocks[*b as usize].rank <= blk.rank).collect();
                                    eprintln!("undefined branch in {} block {cur} (of {}, {} before)", self.m.funcs[fid as usize].name, fu.blocks.len(), ps.len());
                                    for i in &blk.insts { eprintln!("   {i:?}"); }
                                    eprintln!("   {:?}", blk.term);
                                }
                                self.die("undefined value", "branch on an undefined value")
                            }
                        }
                    }
                    Term::Switch(c, d, cases) => {
                        let c = self.get(&fr.regs, c).clone();
                        match &c {
                            V::C(x) => {
                                let t = cases.iter().find(|k| k.0 == *x).map(|k| k.1).unwrap_or(*d);
                                edges.push((t, self.pg));
                            }
                            V::S(s) => {
                                let mut all = F;
                                for (x, g) in &s.a {
                                    let t = cases.iter().find(|k| k.0 == *x).map(|k| k.1).unwrap_or(*d);
                                    let k = self.b.and(*g, self.pg);
                                    if k == F {
                                        continue;
                                    }
                                    all = self.b.or(all, k);
                                    match edges.iter_mut().find(|e| e.0 == t) {
                                        Some(e) => e.1 = self.b.or(e.1, k),
                                        None => edges.push((t, k)),
                                    }
                                }
                                self.check_cover(all, F);
                            }
                            _ => self.die("undefined value", "switch on an undefined value"),
                        }
                    }
                    Term::Unreachable => self.die("unreachable", &format!("unreachable code reached in {}", self.fname())),
                    Term::Resume => self.die("unwinding", "resume"),
                }
                if let Some((_, asg)) = &self.watch {
                    if self.b.eval(self.pg, asg) {
                        let t: Vec<u32> = edges.iter().filter(|e| self.b.eval(e.1, asg)).map(|e| e.0).collect();
                        let loads: Vec<String> = blk.insts.iter().filter_map(|i| crate::report::watch_inst(&self.b, asg, i, &fr.regs)).collect();
                        eprintln!("W {} {cur} -> {t:?} | {}", short(&self.m.funcs[fid as usize].name), loads.join(" "));
                    }
                }
                if edges.len() == 1 && fr.pend.is_empty() {
                    // nothing else is waiting: go on directly
                    let t = edges[0].0;
                    let tb = &fu.blocks[t as usize];
                    if let Some((_, ph)) = tb.phis.iter().find(|p| p.0 == cur) {
                        vals.clear();
                        for (_, o) in ph {
                            vals.push(self.get(&fr.regs, o).clone());
                        }
                        for ((d, _), v) in ph.iter().zip(vals.drain(..)) {
                            fr.regs[*d as usize] = v;
                        }
                    }
                    self.pg = edges[0].1;
                    next = Some(t);
                } else {
                    for (t, g) in edges {
                        let tb = &fu.blocks[t as usize];
                        let ops = &tb.edges.iter().find(|p| p.0 == cur).unwrap().1;
                        match fr.pend.get_mut(&tb.rank) {
                            None => {
                                let vs: Vec<V> = ops.iter().map(|o| self.get(&fr.regs, o).clone()).collect();
                                fr.pend.insert(tb.rank, (t, g, vs));
                            }
                            Some((_, g0, vs)) => {
                                for (v, o) in vs.iter_mut().zip(ops) {
                                    let n = match o {
                                        Op::R(r) => &fr.regs[*r as usize],
                                        Op::K(k) => k,
                                    };
                                    if v.same(n) {
                                        continue;
                                    }
                                    *v = merge(&mut self.b, v, *g0, n, g);
                                }
                                *g0 = self.b.or(*g0, g);
                            }
                        }
                    }
                }
            }
            if next.is_none() {
                match fr.pend.pop_first() {
                    None => break,
                    Some((_, (b, g, vs))) => {
                        for (r, v) in fu.blocks[b as usize].live_in.iter().zip(vs) {
                            fr.regs[*r as usize] = v;
                        }
                        self.pg = g;
                        next = Some(b);
                    }
                }
            }
            cur = next.unwrap();
        }
        for oi in allocas {
            let o = &mut self.objs[oi as usize];
            o.alive = F;
            o.syms.clear();
            let sz = o.size;
            self.stack_classes.entry(sz).or_default().push(oi);
        }
        self.frames.pop();
        match fr.ret {
            None => {
                self.pg = F;
                V::U
            }
            Some((g, v)) => {
                self.pg = g;
                v
            }
        }
    }

    /// free the guard nodes that nothing refers to any more
    #[inline(never)]
    fn collect(&mut self) {
        let mut b = std::mem::replace(&mut self.b, Bdd::empty());
        b.mark_begin();
        let mut seen = std::collections::HashSet::new();
        fn val(b: &mut Bdd, v: &V, seen: &mut std::collections::HashSet<*const u8>) {
            match v {
                V::S(s) => {
                    if seen.insert(Rc::as_ptr(s) as *const u8) {
                        for (_, g) in &s.a {
                            b.mark(*g);
                        }
                    }
                }
                V::A(x) => {
                    for e in x.iter() {
                        val(b, e, seen)
                    }
                }
                _ => {}
            }
        }
        for o in &self.objs {
            b.mark(o.alive);
            for (_, v) in o.syms.values() {
                val(&mut b, v, &mut seen);
            }
        }
        b.mark(self.pg);
        b.mark(self.world);
        for (x, y) in &self.assume {
            b.mark(*x);
            b.mark(*y);
        }
        for e in self.events.values() {
            b.mark(e.reach);
            b.mark(e.fail);
            for (x, y) in &e.pairs {
                b.mark(*x);
                b.mark(*y);
            }
        }
        for g in self.covers_ev.values() {
            b.mark(*g);
        }
        for c in &self.choices {
            b.mark(c.pg);
            for v in &c.vars {
                b.mark(*v);
            }
        }
        for (g, v) in &self.observes {
            b.mark(*g);
            val(&mut b, v, &mut seen);
        }
        for f in &self.frames {
            // SAFETY: every frame is registered exactly while its activation is running
            let f = unsafe { &**f };
            for v in &f.regs {
                val(&mut b, v, &mut seen);
            }
            for (_, g, vs) in f.pend.values() {
                b.mark(*g);
                for v in vs {
                    val(&mut b, v, &mut seen);
                }
            }
            if let Some((g, v)) = &f.ret {
                b.mark(*g);
                val(&mut b, v, &mut seen);
            }
        }
        b.sweep();
        self.gc_next = (b.live * 3).max(1_500_000);
        self.b = b;
        self.gcs += 1;
    }

    fn fname(&self) -> String {
        self.stack.last().map(|f| short(&self.m.funcs[*f as usize].name)).unwrap_or_default()
    }

    /// zero where undefined
    fn complete(&mut self, v: V) -> V {
        match &v {
            V::U => V::C(0),
            V::S(s) => {
                let mut miss = self.pg;
                for (_, g) in &s.a {
                    miss = self.b.diff(miss, *g);
                    if miss == F {
                        return v;
                    }
                }
                miss = self.b.and(miss, self.world);
                if miss == F {
                    return v;
                }
                let mut a = s.a.clone();
                a.push((0, miss));
                mk(&mut self.b, a)
            }
            _ => v,
        }
    }

    fn check_cover(&mut self, a: G, c: G) {
        let all = self.b.or(a, c);
        if all != self.pg {
            let miss = self.b.diff(self.pg, all);
            let miss = self.b.and(miss, self.world);
            if miss != F {
                crate::fatal(&format!("internal error: condition undefined on part of the path in {}", self.where_()));
            }
        }
    }

    fn inst(&mut self, i: &Inst, regs: &mut [V], allocas: &mut Vec<u32>) {
        match i {
            Inst::Bin { op, ty, a, b, dst } => {
                let x = self.get(regs, a);
                let y = self.get(regs, b);
                let r = match (x, y) {
                    (V::C(p), V::C(q)) => V::C(binop(*op, self.m.types.bits(*ty), *p, *q)),
                    (V::U, V::C(0)) if *op == BinOp::And => V::C(0),
                    (V::C(0), V::U) if *op == BinOp::And => V::C(0),
                    (V::U, V::C(1)) if *op == BinOp::Or && self.m.types.bits(*ty) == 1 => V::C(1),
                    (V::C(1), V::U) if *op == BinOp::Or && self.m.types.bits(*ty) == 1 => V::C(1),
                    _ => {
                        let (mut x, mut y) = (x.clone(), y.clone());
                        let (w, _, _) = self.el_ty(*ty);
                        let op = *op;
                        if w >= 16 && w <= 128 {
                            // words of several fields, some of them undefined: the others must not become undefined
                            let ones = if w == 128 { !0 } else { (1u128 << w) - 1 };
                            if op == BinOp::Or {
                                x = self.complete(x);
                                y = self.complete(y);
                            } else if op == BinOp::And {
                                if matches!(&y, V::C(k) if is_high_mask(*k, ones)) {
                                    x = self.complete(x);
                                } else if matches!(&x, V::C(k) if is_high_mask(*k, ones)) {
                                    y = self.complete(y);
                                }
                            }
                        }
                        self.map2(&x, &y, &mut |p, q| binop(op, w, p, q))
                    }
                };
                regs[*dst as usize] = r;
            }
            Inst::Icmp { p, ty, a, b, dst } => {
                let x = self.get(regs, a);
                let y = self.get(regs, b);
                let r = match (x, y) {
                    (V::C(m), V::C(n)) => V::C(icmp(*p, self.m.types.bits(*ty), *m, *n)),
                    _ => {
                        let (x, y) = (x.clone(), y.clone());
                        let (w, _, _) = self.el_ty(*ty);
                        let p = *p;
                        self.map2(&x, &y, &mut |m, n| icmp(p, w, m, n))
                    }
                };
                regs[*dst as usize] = r;
            }
            Inst::Cast { c, from, to, a, dst } => {
                let x = self.get(regs, a).clone();
                let r = self.cast(*c, *from, *to, &x);
                regs[*dst as usize] = r;
            }
            Inst::Select { c, a, b, dst } => {
                let c = self.get(regs, c).clone();
                let a = self.get(regs, a).clone();
                let d = self.get(regs, b).clone();
                regs[*dst as usize] = self.select(&c, &a, &d);
            }
            Inst::Load { ty, p, dst } => {
                let p = self.get(regs, p).clone();
                let v = self.load(*ty, &p);
                regs[*dst as usize] = v;
            }
            Inst::Store { ty, v, p } => {
                let p = self.get(regs, p).clone();
                let v = self.get(regs, v).clone();
                self.store(*ty, &v, &p);
            }
            Inst::Alloca { size, dst } => {
                let oi = match self.stack_classes.get_mut(size).and_then(|l| l.pop()) {
                    Some(oi) => {
                        let o = &mut self.objs[oi as usize];
                        o.st.fill(0);
                        o.syms.clear();
                        o.alive = self.pg;
                        oi
                    }
                    None => {
                        let oi = self.objs.len() as u32;
                        self.objs.push(Obj::new(*size, self.pg, false));
                        oi
                    }
                };
                allocas.push(oi);
                regs[*dst as usize] = V::C(obj_addr(oi) as u128);
            }
            Inst::Gep { base, off, idx, dst } => {
                let mut acc = self.get(regs, base).clone();
                let off = *off;
                if off != 0 {
                    acc = match acc {
                        V::C(x) => V::C((x as u64).wrapping_add(off) as u128),
                        o => lift1(&mut self.b, &o, &mut |x| (x as u64).wrapping_add(off) as u128),
                    };
                }
                for (sc, o, w) in idx {
                    let iv = self.get(regs, o).clone();
                    let (sc, w) = (*sc, *w);
                    acc = lift2(&mut self.b, &acc, &iv, self.pg, &mut |x, y| {
                        (x as u64).wrapping_add((sx(y, w) as u64).wrapping_mul(sc)) as u128
                    });
                }
                regs[*dst as usize] = acc;
            }
            Inst::Extract { path, a, dst } => {
                let mut v = self.get(regs, a).clone();
                for p in path {
                    v = match v {
                        V::A(x) => x[*p as usize].clone(),
                        _ => V::U,
                    };
                }
                regs[*dst as usize] = v;
            }
            Inst::Insert { path, a, v, ty, dst } => {
                let a = self.get(regs, a).clone();
                let v = self.get(regs, v).clone();
                let r = self.insert(a, *ty, path, v);
                regs[*dst as usize] = r;
            }
            Inst::ExtractEl { a, i, n, dst } => {
                let a = self.get(regs, a).clone();
                let i = self.get(regs, i).clone();
                let _ = n;
                let r = match (&a, &i) {
                    (V::A(x), V::C(k)) => x.get(*k as usize).cloned().unwrap_or(V::U),
                    (V::A(x), V::S(s)) => {
                        let x = x.clone();
                        let s = s.clone();
                        let mut acc = V::U;
                        let mut ag = F;
                        for (k, g) in &s.a {
                            if let Some(e) = x.get(*k as usize) {
                                acc = merge(&mut self.b, &acc, ag, e, *g);
                                ag = self.b.or(ag, *g);
                            }
                        }
                        acc
                    }
                    _ => V::U,
                };
                regs[*dst as usize] = r;
            }
            Inst::InsertEl { a, v, i, n, dst } => {
                let a = self.get(regs, a).clone();
                let v = self.get(regs, v).clone();
                let i = self.get(regs, i).clone();
                let mut x: Vec<V> = match a {
                    V::A(x) => x.to_vec(),
                    _ => vec![V::U; *n as usize],
                };
                match i {
                    V::C(k) => x[k as usize] = v,
                    V::S(s) => {
                        for (k, g) in &s.a {
                            let old = x[*k as usize].clone();
                            x[*k as usize] = merge(&mut self.b, &v, *g, &old, !*g);
                        }
                    }
                    _ => {}
                }
                regs[*dst as usize] = V::A(Rc::new(x));
            }
            Inst::Shuffle { a, b, n, mask, dst } => {
                let a = self.get(regs, a).clone();
                let b = self.get(regs, b).clone();
                let pick = |k: u32| -> V {
                    let (v, k) = if k < *n { (&a, k) } else { (&b, k - n) };
                    match v {
                        V::A(x) => x[k as usize].clone(),
                        _ => V::U,
                    }
                };
                let r: Vec<V> = mask.iter().map(|m| m.map(pick).unwrap_or(V::U)).collect();
                regs[*dst as usize] = V::A(Rc::new(r));
            }
            Inst::Copy { a, dst } => {
                let v = self.get(regs, a).clone();
                regs[*dst as usize] = v;
            }
            Inst::Nop => {}
            Inst::Rmw { op, ty, p, v, dst } => {
                let p = self.get(regs, p).clone();
                let v = self.get(regs, v).clone();
                let old = self.load(*ty, &p);
                let m = wm(self.m.types.bits(*ty));
                let op = *op;
                let new = lift2(&mut self.b, &old, &v, self.pg, &mut |a, b| {
                    (match op {
                        0 => b,
                        1 => a.wrapping_add(b),
                        2 => a.wrapping_sub(b),
                        3 => a & b,
                        4 => a | b,
                        5 => a ^ b,
                        6 => a.max(b),
                        _ => a.min(b),
                    }) & m
                });
                self.store(*ty, &new, &p);
                if *dst != NOREG {
                    regs[*dst as usize] = old;
                }
            }
            Inst::Cmpxchg { ty, p, c, n, dst } => {
                let p = self.get(regs, p).clone();
                let c = self.get(regs, c).clone();
                let n = self.get(regs, n).clone();
                let old = self.load(*ty, &p);
                let eq = lift2(&mut self.b, &old, &c, self.pg, &mut |a, b| (a == b) as u128);
                let new = self.select(&eq, &n, &old);
                self.store(*ty, &new, &p);
                if *dst != NOREG {
                    regs[*dst as usize] = V::A(Rc::new(vec![old, eq]));
                }
            }
            Inst::Call { f, args, ret, dst } => {
                let av: Vec<V> = args.iter().map(|a| self.get(regs, &a.1).clone()).collect();
                let tys: Vec<TyId> = args.iter().map(|a| a.0).collect();
                let r = match f {
                    Callee::Direct(f) => self.call(*f, av, &tys, *ret),
                    Callee::Asm => {
                        // optimisation barriers only
                        if *ret != self.m.types.get(Ty::Void) {
                            av.first().cloned().unwrap_or(V::U)
                        } else {
                            V::U
                        }
                    }
                    Callee::Indirect(o) => {
                        let fv = self.get(regs, o).clone();
                        let fv = prune(&mut self.b, fv, self.pg);
                        match &fv {
                            V::C(a) => self.call_addr(*a as u64, av, &tys, *ret),
                            V::S(_) => {
                                let mut acc: Option<(G, V)> = None;
                                let (tys2, ret2) = (tys.clone(), *ret);
                                self.for_alts(&fv, "call", &mut |e, a| {
                                    let av = av.iter().map(|v| prune(&mut e.b, v.clone(), e.pg)).collect();
                                    let v = e.call_addr(a as u64, av, &tys2, ret2);
                                    if e.pg != F {
                                        acc = Some(match acc.take() {
                                            None => (e.pg, v),
                                            Some((g, w)) => {
                                                let x = merge(&mut e.b, &w, g, &v, e.pg);
                                                (e.b.or(g, e.pg), x)
                                            }
                                        });
                                    }
                                });
                                acc.map(|x| x.1).unwrap_or(V::U)
                            }
                            _ => {
                                self.die("undefined value", "call of an undefined pointer");
                                V::U
                            }
                        }
                    }
                };
                if *dst != NOREG {
                    regs[*dst as usize] = r;
                }
            }
        }
    }

    fn call_addr(&mut self, a: u64, args: Vec<V>, tys: &[TyId], ret: TyId) -> V {
        if a < FN_BASE || (a - FN_BASE) / 64 >= self.m.funcs.len() as u64 {
            self.mem_error(&format!("call of invalid function pointer {a:#x}"));
            return V::U;
        }
        self.call(((a - FN_BASE) / 64) as u32, args, tys, ret)
    }

    fn insert(&mut self, a: V, ty: TyId, path: &[u32], v: V) -> V {
        if path.is_empty() {
            return v;
        }
        let (n, sub): (usize, TyId) = match self.m.types.ty(ty) {
            Ty::Struct(es, _) => (es.len(), es[path[0] as usize]),
            Ty::Arr(n, e) => (*n as usize, *e),
            _ => crate::fatal("insertvalue"),
        };
        let mut x: Vec<V> = match a {
            V::A(x) => x.to_vec(),
            _ => vec![V::U; n],
        };
        let k = path[0] as usize;
        let e = std::mem::replace(&mut x[k], V::U);
        x[k] = self.insert(e, sub, &path[1..], v);
        V::A(Rc::new(x))
    }

    fn cast(&mut self, c: Cast, from: TyId, to: TyId, x: &V) -> V {
        let (fw, fnum, fv) = self.el_ty(from);
        let (tw, tn, tv) = self.el_ty(to);
        let m = wm(tw);
        match c {
            Cast::Trunc => match x {
                V::C(x) => V::C(x & m),
                _ => self.map1(x, &mut |x| x & m),
            },
            Cast::Zext => x.clone(),
            Cast::Sext => self.map1(x, &mut |x| sx(x, fw) as u128 & m),
            Cast::Bitcast => {
                if fw == tw && fv == tv {
                    return x.clone();
                }
                let l = self.regroup(x, fw, fnum, tw, tn);
                if tv {
                    V::A(Rc::new(l))
                } else {
                    l[0].clone()
                }
            }
            Cast::FpToUi | Cast::FpToSi => self.map1(x, &mut |x| {
                let f = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                if c == Cast::FpToUi {
                    (f as u128) & m
                } else {
                    (f as i128 as u128) & m
                }
            }),
            Cast::UiToFp | Cast::SiToFp => self.map1(x, &mut |x| {
                let s = sx(x, fw);
                if tw == 32 {
                    (if c == Cast::UiToFp { x as f32 } else { s as f32 }).to_bits() as u128
                } else {
                    (if c == Cast::UiToFp { x as f64 } else { s as f64 }).to_bits() as u128
                }
            }),
            Cast::FpTrunc => self.map1(x, &mut |x| (f64::from_bits(x as u64) as f32).to_bits() as u128),
            Cast::FpExt => self.map1(x, &mut |x| (f32::from_bits(x as u32) as f64).to_bits() as u128),
        }
    }

    // ---- built-in functions ---------------------------------------------------------------
    fn builtin(&mut self, k: Builtin, a: &[V], tys: &[TyId], ret: TyId) -> V {
        use Builtin::*;
        let w = tys.first().map(|t| self.el_ty(*t).0).unwrap_or(64);
        let m = wm(w);
        match k {
            Nop | Print(_) => V::U,
            Zero => V::C(0),
            Ident => a[0].clone(),
            Panic => {
                let loc = self.panic_location(a);
                self.die("panic", &loc);
                V::U
            }
            Abort | Trap => {
                let f = self.where_();
                self.die("abort", &f);
                V::U
            }
            Alloc | AllocZeroed | Malloc | Calloc => {
                let size = match k {
                    Calloc => lift2(&mut self.b, &a[0], &a[1], self.pg, &mut |x, y| x * y),
                    _ => prune(&mut self.b, a[0].clone(), self.pg),
                };
                let zero = matches!(k, AllocZeroed | Calloc);
                let mut acc: Option<(G, V)> = None;
                let pairs = self.addr_alts(&size);
                let save = self.pg;
                for (s, g) in pairs {
                    self.pg = self.b.and(save, g);
                    let p = V::C(self.alloc(s as u64, 16, zero) as u128);
                    acc = Some(match acc {
                        None => (g, p),
                        Some((ag, av)) => {
                            let v = merge(&mut self.b, &av, ag, &p, g);
                            (self.b.or(ag, g), v)
                        }
                    });
                }
                self.pg = save;
                acc.map(|x| x.1).unwrap_or(V::U)
            }
            PosixMemalign => {
                let s = a[2].c().unwrap_or_else(|| crate::fatal("posix_memalign size"));
                let p = self.alloc(s as u64, 16, false);
                let pt = self.m.types.get(Ty::Ptr);
                self.store(pt, &V::C(p as u128), &a[0]);
                V::C(0)
            }
            Dealloc | Free => {
                self.for_alts(&a[0], "free", &mut |e, p| {
                    if p != 0 {
                        e.free(p as u64)
                    }
                });
                V::U
            }
            Realloc | CRealloc => {
                // (ptr, old size, align, new size) or (ptr, size)
                let new = if k == Realloc { a[3].clone() } else { a[1].clone() };
                let mut acc: Option<(G, V)> = None;
                let p0 = a[0].clone();
                self.for_alts(&p0, "realloc", &mut |e, p| {
                    let n2 = prune(&mut e.b, new.clone(), e.pg);
                    e.for_alts(&n2, "realloc size", &mut |e, n| {
                        let np = e.alloc(n as u64, 16, false);
                        if p != 0 {
                            let (oi, _) = split_addr(p as u64);
                            let old = e.objs.get(oi as usize).map(|o| o.size).unwrap_or(0);
                            e.memcpy_c(np, p as u64, old.min(n as u64));
                            e.free(p as u64);
                        }
                        if e.pg != F {
                            let v = V::C(np as u128);
                            acc = Some(match acc.take() {
                                None => (e.pg, v),
                                Some((g, w)) => {
                                    let x = merge(&mut e.b, &w, g, &v, e.pg);
                                    (e.b.or(g, e.pg), x)
                                }
                            });
                        }
                    });
                });
                acc.map(|x| x.1).unwrap_or(V::U)
            }
            Memcpy => {
                if let (V::C(d), V::C(s), V::C(n)) = (&a[0], &a[1], &a[2]) {
                    self.memcpy_c(*d as u64, *s as u64, *n as u64);
                    return a[0].clone();
                }
                let (d, s, n) = (a[0].clone(), a[1].clone(), a[2].clone());
                self.for_alts(&n, "copy length", &mut |e, n| {
                    if n == 0 {
                        return;
                    }
                    let s = prune(&mut e.b, s.clone(), e.pg);
                    e.for_alts(&s, "copy source", &mut |e, s| {
                        let d = prune(&mut e.b, d.clone(), e.pg);
                        e.for_alts(&d, "copy destination", &mut |e, d| e.memcpy_c(d as u64, s as u64, n as u64));
                    });
                });
                a[0].clone()
            }
            Memset => {
                let (d, v, n) = (a[0].clone(), a[1].clone(), a[2].clone());
                self.for_alts(&v, "memset value", &mut |e, v| {
                    let n = prune(&mut e.b, n.clone(), e.pg);
                    e.for_alts(&n, "memset length", &mut |e, n| {
                        let d = prune(&mut e.b, d.clone(), e.pg);
                        e.for_alts(&d, "memset destination", &mut |e, d| e.memset_c(d as u64, v as u8, n as u64));
                    });
                });
                a[0].clone()
            }
            Memcmp => {
                let mut acc: Option<(G, V)> = None;
                let (p, q, n) = (a[0].clone(), a[1].clone(), a[2].clone());
                self.for_alts(&n, "compare length", &mut |e, n| {
                    let p = prune(&mut e.b, p.clone(), e.pg);
                    e.for_alts(&p, "compare", &mut |e, p| {
                        let q = prune(&mut e.b, q.clone(), e.pg);
                        e.for_alts(&q, "compare", &mut |e, q| {
                            let v = e.memcmp_c(p as u64, q as u64, n as u64);
                            if e.pg != F {
                                acc = Some(match acc.take() {
                                    None => (e.pg, v),
                                    Some((g, w)) => {
                                        let x = merge(&mut e.b, &w, g, &v, e.pg);
                                        (e.b.or(g, e.pg), x)
                                    }
                                });
                            }
                        });
                    });
                });
                acc.map(|x| x.1).unwrap_or(V::U)
            }
            Strlen => {
                let mut n = 0;
                let p = a[0].c().unwrap_or_else(|| crate::fatal("strlen of symbolic pointer")) as u64;
                loop {
                    match self.load_c(p + n, 1) {
                        V::C(0) => return V::C(n as u128),
                        V::C(_) => n += 1,
                        _ => crate::fatal("strlen of symbolic string"),
                    }
                }
            }
            Choice | Slice => {
                let n = a[0].c().unwrap_or_else(|| crate::fatal("symbolic number of alternatives")) as u64;
                // for debugging: fix the values of the choices, in the order of the (only) path
                if let Some(p) = self.pin.pop_front() {
                    if p >= 0 {
                        self.choices.push(self::Choice { pg: self.pg, vars: vec![], k: n });
                        return V::C(p as u128);
                    }
                }
                let nb = if n <= 1 { 0 } else { 64 - (n - 1).leading_zeros() };
                let vars: Vec<G> = (0..nb).map(|_| self.b.new_var()).collect();
                let mut alts = vec![];
                let mut ok = F;
                // the work is split at the first only, or inputs would be left out
                let split = k == Slice && !self.sliced;
                self.sliced |= split;
                for v in 0..n {
                    let mut g = T;
                    for (i, x) in vars.iter().enumerate().rev() {
                        let l = if v >> i & 1 == 1 { *x } else { !*x };
                        g = self.b.and(l, g);
                    }
                    if split {
                        if v % self.slice.1 != self.slice.0 {
                            continue;
                        }
                    }
                    ok = self.b.or(ok, g);
                    alts.push((v as u128, g));
                }
                if let Some((mut q, mut asg)) = self.watch.take() {
                    let on = self.b.eval(self.pg, &asg);
                    let x = if on { q.pop_front().unwrap_or(0) } else { 0 };
                    for i in 0..nb {
                        asg.push(x >> i & 1 == 1);
                    }
                    self.watch = Some((q, asg));
                }
                self.choices.push(self::Choice { pg: self.pg, vars, k: n });
                self.restrict(ok);
                mk(&mut self.b, alts)
            }
            Assume => {
                let (t, _) = self.truth(&a[0]);
                self.restrict(t);
                V::U
            }
            Assert => {
                let msg = self.read_str(&a[1], &a[2]);
                let (t, _) = self.truth(&a[0]);
                let pg = self.pg;
                let ok = t;
                let fail = self.b.diff(pg, ok);
                let fail = self.b.and(fail, self.world);
                let stack = self.where_();
                let key = format!("assertion: {msg}");
                let e = self.events.entry(key).or_insert(Event { kind: "assertion", msg, pairs: vec![], reach: F, fail: F, stack });
                e.reach = self.b.or(e.reach, pg);
                e.fail = self.b.or(e.fail, fail);
                if !e.pairs.contains(&(pg, ok)) {
                    e.pairs.push((pg, ok));
                }
                if fail != F {
                    // the rest of the run only continues where it holds
                    self.world = self.b.diff(self.world, fail);
                    self.pg = self.b.diff(self.pg, fail);
                }
                V::U
            }
            Cover => {
                let msg = self.read_str(&a[1], &a[2]);
                let (t, _) = self.truth(&a[0]);
                let g = self.b.and(self.pg, t);
                let g = self.b.and(g, self.world);
                let o = self.covers_ev.get(&msg).copied().unwrap_or(F);
                let n = self.b.or(o, g);
                self.covers_ev.insert(msg, n);
                V::U
            }
            Observe => {
                let v = prune(&mut self.b, a[0].clone(), self.pg);
                self.observes.push((self.pg, v));
                V::U
            }
            Getrandom => {
                if let V::C(n) = a[1] {
                    let p = a[0].clone();
                    self.for_alts(&p, "getrandom", &mut |e, p| e.memset_c(p as u64, 0x5a, n as u64));
                }
                a[1].clone()
            }
            // the clock stands still
            Clock => {
                let p = a[1].clone();
                self.for_alts(&p, "clock", &mut |e, p| e.memset_c(p as u64, 0, 16));
                V::C(0)
            }
            Syscall => match a[0] {
                V::C(318) => self.builtin(Getrandom, &a[1..], &tys[1..], ret),
                _ => crate::fatal(&format!("system call {:?} in {}", a[0], self.where_())),
            },
            Write => a[2].clone(),
            Errno => {
                if self.errno == 0 {
                    let save = std::mem::replace(&mut self.pg, T);
                    self.errno = self.alloc(8, 8, true);
                    self.pg = save;
                }
                V::C(self.errno as u128)
            }
            Ctpop => self.map1(&a[0], &mut |x| x.count_ones() as u128),
            Ctlz => self.map1(&a[0], &mut |x| (x.leading_zeros() - (128 - w)) as u128),
            Cttz => self.map1(&a[0], &mut |x| (x.trailing_zeros().min(w)) as u128),
            Bswap => self.map1(&a[0], &mut |x| x.swap_bytes() >> (128 - w)),
            Bitreverse => self.map1(&a[0], &mut |x| x.reverse_bits() >> (128 - w)),
            Fshl | Fshr => {
                let cat = self.map2(&a[0], &a[1], &mut |x, y| {
                    if w > 64 {
                        crate::fatal("funnel shift wider than 64")
                    }
                    (x << w) | y
                });
                let ws = w as u128;
                if k == Fshl {
                    self.map2(&cat, &a[2], &mut |c, s| ((c << (s % ws) as u32) >> w) & m)
                } else {
                    self.map2(&cat, &a[2], &mut |c, s| (c >> (s % ws) as u32) & m)
                }
            }
            OvUAdd | OvUSub | OvUMul | OvSAdd | OvSSub | OvSMul => {
                let f = move |x: u128, y: u128| -> (u128, bool) {
                    match k {
                        OvUAdd => {
                            let (r, o) = x.overflowing_add(y);
                            (r & m, o || r > m)
                        }
                        OvUSub => (x.wrapping_sub(y) & m, x < y),
                        OvUMul => {
                            let (r, o) = x.overflowing_mul(y);
                            (r & m, o || r > m)
                        }
                        _ => {
                            let (p, q) = (sx(x, w), sx(y, w));
                            let (r, o) = match k {
                                OvSAdd => p.overflowing_add(q),
                                OvSSub => p.overflowing_sub(q),
                                _ => p.overflowing_mul(q),
                            };
                            let t = r as u128 & m;
                            (t, o || sx(t, w) != r)
                        }
                    }
                };
                let r = self.map2(&a[0], &a[1], &mut |x, y| f(x, y).0);
                let o = self.map2(&a[0], &a[1], &mut |x, y| f(x, y).1 as u128);
                V::A(Rc::new(vec![r, o]))
            }
            UAddSat => self.map2(&a[0], &a[1], &mut |x, y| x.saturating_add(y).min(m)),
            USubSat => self.map2(&a[0], &a[1], &mut |x, y| x.saturating_sub(y)),
            SAddSat | SSubSat => self.map2(&a[0], &a[1], &mut |x, y| {
                let (p, q) = (sx(x, w), sx(y, w));
                let r = if k == SAddSat { p.saturating_add(q) } else { p.saturating_sub(q) };
                let hi = (m >> 1) as i128;
                r.clamp(-hi - 1, hi) as u128 & m
            }),
            UMax => self.map2(&a[0], &a[1], &mut |x, y| x.max(y)),
            UMin => self.map2(&a[0], &a[1], &mut |x, y| x.min(y)),
            SMax => self.map2(&a[0], &a[1], &mut |x, y| if sx(x, w) >= sx(y, w) { x } else { y }),
            SMin => self.map2(&a[0], &a[1], &mut |x, y| if sx(x, w) <= sx(y, w) { x } else { y }),
            Abs => self.map1(&a[0], &mut |x| sx(x, w).wrapping_abs() as u128 & m),
            Scmp | Ucmp => {
                let rw = wm(self.m.types.bits(ret));
                self.map2(&a[0], &a[1], &mut |x, y| {
                    let o = if k == Scmp { sx(x, w).cmp(&sx(y, w)) } else { x.cmp(&y) };
                    (o as i8 as i128 as u128) & rw
                })
            }
            Objsize => V::C(u64::MAX as u128),
            IsConstant => V::C(0),
            ReduceAdd | ReduceOr | ReduceAnd | ReduceXor | ReduceUMax | ReduceUMin | ReduceMul => {
                let V::A(x) = &a[0] else { return V::U };
                let x = x.clone();
                let mut acc = x[0].clone();
                for e in &x[1..] {
                    acc = lift2(&mut self.b, &acc, e, self.pg, &mut |p, q| match k {
                        ReduceAdd => p.wrapping_add(q) & m,
                        ReduceMul => p.wrapping_mul(q) & m,
                        ReduceOr => p | q,
                        ReduceAnd => p & q,
                        ReduceXor => p ^ q,
                        ReduceUMax => p.max(q),
                        _ => p.min(q),
                    });
                }
                acc
            }
            FloatFn(f) => {
                let op = move |x: f64, y: f64| -> f64 {
                    match f {
                        0 => x.abs(),
                        1 => x.floor(),
                        2 => x.ceil(),
                        3 => x.sqrt(),
                        4 => x.round(),
                        5 => x.trunc(),
                        6 => x.max(y),
                        7 => x.min(y),
                        8 => x.copysign(y),
                        9 => x.sin(),
                        10 => x.cos(),
                        11 => x.hypot(y),
                        12 => x.atan2(y),
                        13 => x.powf(y),
                        14 => x.round_ties_even(),
                        _ => x.fract(),
                    }
                };
                let mut g = |x: u128, y: u128| -> u128 {
                    if w == 32 {
                        (op(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u128
                    } else {
                        op(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
                    }
                };
                if a.len() > 1 {
                    self.map2(&a[0], &a[1], &mut g)
                } else {
                    self.map1(&a[0], &mut |x| g(x, 0))
                }
            }
            Fma => {
                let p = self.map2(&a[0], &a[1], &mut |x, y| binop(BinOp::FMul, w, x, y));
                self.map2(&p, &a[2], &mut |x, y| binop(BinOp::FAdd, w, x, y))
            }
            FptoSat(signed) => {
                let tw = self.el_ty(ret).0;
                self.map1(&a[0], &mut |x| {
                    let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                    if signed {
                        let hi = (wm(tw) >> 1) as i128;
                        (f as i128).clamp(-hi - 1, hi) as u128 & wm(tw)
                    } else {
                        (f as u128).min(wm(tw))
                    }
                })
            }
            Strip => V::U,
        }
    }

    /// intersect the current path with g; inputs outside leave the exploration altogether
    fn restrict(&mut self, g: G) {
        let pg = self.pg;
        self.assume.push((pg, g));
        self.pg = self.b.and(pg, g);
        let out = self.b.diff(pg, g);
        self.world = self.b.diff(self.world, out);
    }

    fn memcmp_c(&mut self, p: u64, q: u64, n: u64) -> V {
        if n == 0 || p == q {
            return V::C(0);
        }
        // a concrete fast path
        let Some((po, poff)) = self.resolve(p, n, "compare") else { return V::U };
        let Some((qo, qoff)) = self.resolve(q, n, "compare") else { return V::U };
        let n = n as usize;
        {
            let (x, y) = (&self.objs[po as usize], &self.objs[qo as usize]);
            if x.st[poff..poff + n].iter().all(|s| *s == 1) && y.st[qoff..qoff + n].iter().all(|s| *s == 1) {
                let c = x.data[poff..poff + n].cmp(&y.data[qoff..qoff + n]);
                return V::C((c as i8 as i32 as u32) as u128);
            }
        }
        let mut eq = T; // still equal
        let mut lt = F;
        let mut gt = F;
        for k in 0..n {
            let x = self.load_raw(po, poff + k, 1);
            let y = self.load_raw(qo, qoff + k, 1);
            let c = lift2(&mut self.b, &x, &y, self.pg, &mut |a, b| a.cmp(&b) as i8 as u8 as u128);
            match c {
                V::C(0) => continue,
                V::C(v) => {
                    if v == 1 {
                        gt = self.b.or(gt, eq)
                    } else {
                        lt = self.b.or(lt, eq)
                    }
                    eq = F;
                    break;
                }
                V::S(s) => {
                    let mut ne = F;
                    for (v, g) in &s.a {
                        let h = self.b.and(*g, eq);
                        if *v == 1 {
                            gt = self.b.or(gt, h);
                            ne = self.b.or(ne, *g);
                        } else if *v != 0 {
                            lt = self.b.or(lt, h);
                            ne = self.b.or(ne, *g);
                        }
                    }
                    eq = self.b.diff(eq, ne);
                    if self.b.disjoint(eq, self.pg) {
                        break;
                    }
                }
                _ => crate::fatal(&format!("comparison of undefined memory in {}", self.where_())),
            }
        }
        let v = mk(&mut self.b, vec![(0, eq), (1, gt), (0xffff_ffff, lt)]);
        prune(&mut self.b, v, self.pg)
    }

    fn read_str(&mut self, p: &V, n: &V) -> String {
        let (Some(p), Some(n)) = (p.c(), n.c()) else { return "?".into() };
        let mut out = vec![];
        for k in 0..n as u64 {
            match self.load_c(p as u64 + k, 1) {
                V::C(x) => out.push(x as u8),
                _ => out.push(b'?'),
            }
        }
        String::from_utf8_lossy(&out).into_owned()
    }

    fn panic_location(&mut self, a: &[V]) -> String {
        let who = self.where_();
        let save = self.pg;
        for v in a.iter().rev() {
            let Some(p) = v.c() else { continue };
            let (oi, off) = split_addr(p as u64);
            if oi as usize >= self.objs.len() || off != 0 && off > (1 << 20) {
                continue;
            }
            if self.objs[oi as usize].lazy_global {
                self.materialise(oi);
            }
            if self.objs[oi as usize].size < off + 24 || self.objs[oi as usize].heap {
                continue;
            }
            let f = self.load_c(p as u64, 8);
            let n = self.load_c(p as u64 + 8, 8);
            let l = self.load_c(p as u64 + 16, 4);
            if let (Some(f), Some(n), Some(l)) = (f.c(), n.c(), l.c()) {
                if n > 0 && n < 400 && f > 0xffff && l > 0 && l < 1_000_000 {
                    let (fo, _) = split_addr(f as u64);
                    if (fo as usize) < self.objs.len() {
                        let s = self.read_str(&V::C(f), &V::C(n));
                        self.pg = save;
                        return format!("{}:{}", s.trim_end_matches('\0'), l);
                    }
                }
            }
        }
        self.pg = save;
        who
    }
}

/// a readable rendering of a (v0 or legacy) mangled name: the identifiers in it
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                if out.len() >= 12 {
                    break;
                }
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
