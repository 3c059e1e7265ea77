//! Memory: objects made of bytes, part of which are covered by symbolic cells.
use crate::bdd::*;
use crate::exec::Engine;
use crate::ll::obj_addr;
use crate::value::*;
use std::collections::HashMap;

pub struct Obj {
    pub size: u64,
    pub alive: G,
    pub heap: bool,
    pub lazy_global: bool,
    pub data: Vec<u8>,
    /// 0 undefined, 1 concrete, 2 start of a symbolic cell, 3 inside a symbolic cell
    pub st: Vec<u8>,
    pub syms: HashMap<u32, (u8, V)>,
}

impl Obj {
    pub fn new(size: u64, alive: G, heap: bool) -> Obj {
        Obj {
            size,
            alive,
            heap,
            lazy_global: false,
            data: vec![0; size as usize],
            st: vec![0; size as usize],
            syms: HashMap::new(),
        }
    }
    fn conc(&self, off: usize, len: usize) -> u128 {
        let mut b = [0u8; 16];
        b[..len].copy_from_slice(&self.data[off..off + len]);
        u128::from_le_bytes(b)
    }
    fn cell_start(&self, mut o: usize) -> usize {
        while self.st[o] == 3 {
            o -= 1;
        }
        o
    }
}

fn wmask(len: usize) -> u128 {
    if len >= 16 {
        u128::MAX
    } else {
        (1u128 << (len * 8)) - 1
    }
}

pub fn split_addr(a: u64) -> (u32, u64) {
    (((a >> 32) as u32).wrapping_sub(16), a & 0xffff_ffff)
}

impl Engine {
    /// the whole value at [off, off+len), unpruned
    pub fn load_raw(&mut self, oi: u32, off: usize, len: usize) -> V {
        let o = &self.objs[oi as usize];
        let st = &o.st[off..off + len];
        let s0 = st[0];
        if s0 == 1 && st.iter().all(|x| *x == 1) {
            return V::C(o.conc(off, len));
        }
        if s0 == 2 {
            let (l, v) = &o.syms[&(off as u32)];
            if *l as usize == len {
                return v.clone();
            }
        }
        if s0 == 0 && st.iter().all(|x| *x == 0) {
            return V::U;
        }
        // mixture
        let pg = self.pg;
        let mut acc = V::C(0);
        let mut p = 0;
        while p < len {
            let o = &self.objs[oi as usize];
            let at = off + p;
            match o.st[at] {
                0 => p += 1,
                1 => {
                    let mut e = p;
                    while e < len && o.st[off + e] == 1 {
                        e += 1;
                    }
                    let c = o.conc(at, e - p) << (p * 8);
                    acc = lift1(&mut self.b, &acc, &mut |x| x | c);
                    p = e;
                }
                _ => {
                    let cs = o.cell_start(at);
                    let (cl, v) = o.syms[&(cs as u32)].clone();
                    let skip = at - cs;
                    let n = (cl as usize - skip).min(len - p);
                    let m = wmask(n);
                    let v = prune(&mut self.b, v, pg);
                    if matches!(v, V::U) {
                        p += n;
                        continue;
                    }
                    let mut piece = lift1(&mut self.b, &v, &mut |x| ((x >> (skip * 8)) & m) << (p * 8));
                    if n < len {
                        // where this piece is undefined the others may not be
                        if let V::S(s) = &v {
                            let mut miss = pg;
                            for (_, g) in &s.a {
                                miss = self.b.diff(miss, *g);
                            }
                            if miss != F {
                                piece = merge(&mut self.b, &piece, !miss, &V::C(0), miss);
                            }
                        }
                    }
                    acc = lift2(&mut self.b, &acc, &piece, pg, &mut |x, y| x | y);
                    p += n;
                }
            }
        }
        acc
    }

    /// forget what is at [off, off+len); cells that stick out are split
    fn clear(&mut self, oi: u32, off: usize, len: usize) {
        let b = &mut self.b;
        let o = &mut self.objs[oi as usize];
        let end = off + len;
        if o.syms.is_empty() {
            return;
        }
        let mut p = off;
        while p < end {
            if o.st[p] >= 2 {
                let cs = o.cell_start(p);
                let (cl, v) = o.syms.remove(&(cs as u32)).unwrap();
                let ce = cs + cl as usize;
                for q in cs..ce {
                    if q < off || q >= end {
                        let piece = lift1(b, &v, &mut |x| (x >> ((q - cs) * 8)) & 0xff);
                        match piece {
                            V::C(x) => {
                                o.st[q] = 1;
                                o.data[q] = x as u8;
                            }
                            piece => {
                                o.st[q] = 2;
                                o.syms.insert(q as u32, (1, piece));
                            }
                        }
                    } else {
                        o.st[q] = 0;
                    }
                }
                p = ce;
            } else {
                p += 1;
            }
        }
    }

    fn put(&mut self, oi: u32, off: usize, len: usize, v: V) {
        self.clear(oi, off, len);
        let o = &mut self.objs[oi as usize];
        match v {
            V::U => o.st[off..off + len].fill(0),
            V::C(x) => {
                o.data[off..off + len].copy_from_slice(&x.to_le_bytes()[..len]);
                o.st[off..off + len].fill(1);
            }
            V::S(_) => {
                o.st[off] = 2;
                o.st[off + 1..off + len].fill(3);
                o.syms.insert(off as u32, (len as u8, v));
            }
            V::A(_) => crate::fatal("aggregate cell"),
        }
    }

    /// is every live input of the object inside the current path?
    pub fn covers(&mut self, oi: u32) -> bool {
        let al = self.objs[oi as usize].alive;
        if al == self.pg {
            return true;
        }
        let a = self.b.and(al, self.world);
        self.b.implies(a, self.pg)
    }

    pub fn store_raw(&mut self, oi: u32, off: usize, len: usize, v: V, full: bool) {
        if full {
            let v = prune(&mut self.b, v, self.pg);
            self.put(oi, off, len, v);
            return;
        }
        if matches!(v, V::U) {
            return;
        }
        let save = self.pg;
        let aw = self.b.and(self.objs[oi as usize].alive, self.world);
        let rest = self.b.diff(aw, save);
        self.pg = rest;
        let old = self.load_raw(oi, off, len);
        self.pg = save;
        let new = merge(&mut self.b, &v, save, &old, rest);
        self.put(oi, off, len, new);
    }

    /// resolve a concrete address for an access of len bytes; the part of the path on which it is invalid dies
    pub fn resolve(&mut self, addr: u64, len: u64, what: &str) -> Option<(u32, usize)> {
        let (oi, off) = split_addr(addr);
        if (oi as usize) >= self.objs.len() {
            self.mem_error(&format!("{what} through invalid pointer {addr:#x}"));
            return None;
        }
        if self.objs[oi as usize].lazy_global {
            self.materialise(oi);
        }
        let o = &self.objs[oi as usize];
        let alive = o.alive;
        let size = o.size;
        if !self.b.implies(self.pg, alive) {
            let save = self.pg;
            self.pg = self.b.diff(save, alive);
            if !self.b.disjoint(self.pg, self.world) {
                self.mem_error(&format!("{what} of freed memory (object {oi} size {size})"));
            }
            self.pg = self.b.and(save, alive);
            if self.pg == F {
                return None;
            }
        }
        if off + len > size {
            self.mem_error(&format!("{what} out of bounds: offset {off} length {len} in object of {size} bytes"));
            return None;
        }
        Some((oi, off as usize))
    }

    pub fn load_c(&mut self, addr: u64, len: usize) -> V {
        match self.resolve(addr, len as u64, "read") {
            None => V::U,
            Some((oi, off)) => {
                let v = self.load_raw(oi, off, len);
                prune(&mut self.b, v, self.pg)
            }
        }
    }
    pub fn store_c(&mut self, addr: u64, len: usize, v: V) {
        if let Some((oi, off)) = self.resolve(addr, len as u64, "write") {
            let full = self.covers(oi);
            self.store_raw(oi, off, len, v, full);
        }
    }

    pub fn alloc(&mut self, size: u64, align: u64, zero: bool) -> u64 {
        if size > (1 << 28) {
            crate::fatal(&format!("allocation of {size} bytes"));
        }
        let _ = align;
        let pg = self.pg;
        let list = self.heap_classes.get(&size).cloned().unwrap_or_default();
        let mut found = None;
        for oi in list.iter().take(400) {
            let al = self.objs[*oi as usize].alive;
            let alw = self.b.and(al, self.world);
            if alw == F || self.b.disjoint(alw, pg) {
                found = Some((*oi, alw));
                break;
            }
        }
        let oi = match found {
            Some((oi, alw)) => {
                if alw == F {
                    let o = &mut self.objs[oi as usize];
                    o.st.fill(0);
                    o.syms.clear();
                    o.alive = pg;
                } else {
                    let n = self.b.or(alw, pg);
                    self.objs[oi as usize].alive = n;
                }
                oi
            }
            None => {
                let oi = self.objs.len() as u32;
                self.objs.push(Obj::new(size, pg, true));
                self.heap_classes.entry(size).or_default().push(oi);
                oi
            }
        };
        self.allocs += 1;
        let a = obj_addr(oi);
        if zero {
            self.memset_c(a, 0, size);
        }
        a
    }
    pub fn free(&mut self, addr: u64) {
        let (oi, off) = split_addr(addr);
        if oi as usize >= self.objs.len() || off != 0 || !self.objs[oi as usize].heap {
            self.mem_error(&format!("free of invalid pointer {addr:#x}"));
            return;
        }
        let al = self.objs[oi as usize].alive;
        if !self.b.implies(self.pg, al) {
            let save = self.pg;
            self.pg = self.b.diff(save, al);
            self.mem_error("double free");
            self.pg = self.b.and(save, al);
        }
        let n = self.b.diff(al, self.pg);
        self.objs[oi as usize].alive = n;
    }

    pub fn memset_c(&mut self, addr: u64, byte: u8, len: u64) {
        if len == 0 {
            return;
        }
        let Some((oi, off)) = self.resolve(addr, len, "memset") else { return };
        let len = len as usize;
        if self.covers(oi) {
            self.clear(oi, off, len);
            let o = &mut self.objs[oi as usize];
            o.data[off..off + len].fill(byte);
            o.st[off..off + len].fill(1);
            return;
        }
        let mut p = 0;
        while p < len {
            let n = self.chunk(oi, off + p, len - p);
            let v = u128::from_le_bytes([byte; 16]) & wmask(n);
            self.store_raw(oi, off + p, n, V::C(v), false);
            p += n;
        }
    }

    /// size of the next piece to write at an offset so that existing cells are respected
    fn chunk(&self, oi: u32, at: usize, rem: usize) -> usize {
        let o = &self.objs[oi as usize];
        if o.st[at] == 2 {
            let l = o.syms[&(at as u32)].0 as usize;
            if l <= rem {
                return l;
            }
        }
        let mut n = 8;
        while n > 1 && (at % n != 0 || n > rem || o.st[at + 1..at + n].iter().any(|s| *s == 2)) {
            n /= 2;
        }
        n
    }

    pub fn memcpy_c(&mut self, dst: u64, src: u64, len: u64) {
        if len == 0 || dst == src {
            return;
        }
        let Some((so, soff)) = self.resolve(src, len, "read (copy)") else { return };
        let Some((d, doff)) = self.resolve(dst, len, "write (copy)") else { return };
        let len = len as usize;
        let full = self.covers(d);
        let nosym = self.objs[so as usize].syms.is_empty()
            || self.objs[so as usize].st[soff..soff + len].iter().all(|x| *x < 2);
        if full && nosym {
            self.clear(d, doff, len);
            let (data, st) = {
                let o = &self.objs[so as usize];
                (o.data[soff..soff + len].to_vec(), o.st[soff..soff + len].to_vec())
            };
            let o = &mut self.objs[d as usize];
            o.data[doff..doff + len].copy_from_slice(&data);
            o.st[doff..doff + len].copy_from_slice(&st);
            return;
        }
        // collect the pieces first (the ranges may overlap)
        let mut pieces: Vec<(usize, usize, V)> = vec![];
        let mut p = 0;
        while p < len {
            let at = soff + p;
            let o = &self.objs[so as usize];
            match o.st[at] {
                0 => {
                    let mut n = 1;
                    while p + n < len && o.st[at + n] == 0 {
                        n += 1;
                    }
                    if full {
                        for k in 0..n {
                            pieces.push((p + k, 1, V::U));
                        }
                    }
                    p += n;
                }
                1 => {
                    let mut run = 1;
                    while run < 8 && p + run < len && o.st[at + run] == 1 {
                        run += 1;
                    }
                    let mut n = if full { run } else { self.chunk(d, doff + p, len - p) };
                    if n > run {
                        let mut m = 8;
                        while m > run || (doff + p) % m != 0 {
                            m /= 2;
                        }
                        n = m;
                    }
                    let o = &self.objs[so as usize];
                    let c = o.conc(at, n);
                    if !full {
                        let q = &self.objs[d as usize];
                        if q.st[doff + p..doff + p + n].iter().all(|x| *x == 1) && q.conc(doff + p, n) == c {
                            p += n;
                            continue;
                        }
                    }
                    pieces.push((p, n, V::C(c)));
                    p += n;
                }
                _ => {
                    let cs = o.cell_start(at);
                    let (cl, v) = o.syms[&(cs as u32)].clone();
                    let skip = at - cs;
                    let n = (cl as usize - skip).min(len - p);
                    let v = prune(&mut self.b, v, self.pg);
                    if skip == 0 && n == cl as usize {
                        pieces.push((p, n, v));
                    } else {
                        for k in 0..n {
                            let e = lift1(&mut self.b, &v, &mut |x| (x >> ((skip + k) * 8)) & 0xff);
                            pieces.push((p + k, 1, e));
                        }
                    }
                    p += n;
                }
            }
        }
        for (p, n, v) in pieces {
            self.store_raw(d, doff + p, n, v, full);
        }
    }
}
