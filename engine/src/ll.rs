//! Reader for textual LLVM IR (LLVM >= 17, opaque pointers). Function bodies and global initialisers are
//! parsed on first use.
use crate::fatal;
use crate::value::V;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther(u32),
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Token,
    Fn,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

pub struct Types {
    pub tys: Vec<Ty>,
    pub info: Vec<TyInfo>,
    map: HashMap<Ty, TyId>,
}

fn up(x: u64, a: u64) -> u64 {
    if a == 0 {
        x
    } else {
        x.div_ceil(a) * a
    }
}

impl Types {
    pub fn new() -> Self {
        Types { tys: vec![], info: vec![], map: HashMap::new() }
    }
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let info = match &t {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Token | Ty::Fn => TyInfo { size: 0, align: 1, offs: vec![] },
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = b.next_power_of_two().min(16);
                TyInfo { size: up(b, a), align: a, offs: vec![] }
            }
            Ty::Ptr => TyInfo { size: 8, align: 8, offs: vec![] },
            Ty::F32 => TyInfo { size: 4, align: 4, offs: vec![] },
            Ty::F64 => TyInfo { size: 8, align: 8, offs: vec![] },
            Ty::FOther(b) => TyInfo { size: *b as u64 / 8, align: (*b as u64 / 8).min(16), offs: vec![] },
            Ty::Arr(n, e) => {
                let i = &self.info[*e as usize];
                TyInfo { size: i.size * n, align: i.align, offs: vec![] }
            }
            Ty::Vec(n, e) => {
                let bits = match self.tys[*e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.info[*e as usize].size * 8,
                };
                let b = (bits * *n as u64).div_ceil(8);
                let a = b.next_power_of_two();
                TyInfo { size: up(b, a), align: a, offs: vec![] }
            }
            Ty::Struct(es, packed) => {
                let mut o = 0;
                let mut al = 1;
                let mut offs = vec![];
                for e in es {
                    let i = &self.info[*e as usize];
                    let a = if *packed { 1 } else { i.align };
                    o = up(o, a);
                    offs.push(o);
                    o += i.size;
                    al = al.max(a);
                }
                TyInfo { size: up(o, al), align: al, offs }
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.info.push(info);
        self.map.insert(t, id);
        id
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.info[t as usize].size
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::FOther(b) => *b,
            Ty::Vec(n, e) => n * self.bits(*e),
            _ => (self.size(t) * 8) as u32,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FNeg,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
    F(u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, a: Op, b: Op, dst: u32 },
    Icmp { p: Pred, ty: TyId, a: Op, b: Op, dst: u32 },
    Cast { c: Cast, from: TyId, to: TyId, a: Op, dst: u32 },
    Select { c: Op, a: Op, b: Op, dst: u32 },
    Load { ty: TyId, p: Op, dst: u32 },
    Store { ty: TyId, v: Op, p: Op },
    Alloca { size: u64, dst: u32 },
    Gep { base: Op, off: u64, idx: Vec<(u64, Op, u32)>, dst: u32 },
    Extract { path: Vec<u32>, a: Op, dst: u32 },
    Insert { path: Vec<u32>, a: Op, v: Op, ty: TyId, dst: u32 },
    ExtractEl { a: Op, i: Op, n: u32, dst: u32 },
    InsertEl { a: Op, v: Op, i: Op, n: u32, dst: u32 },
    Shuffle { a: Op, b: Op, n: u32, mask: Vec<Option<u32>>, dst: u32 },
    Call { f: Callee, args: Vec<(TyId, Op)>, ret: TyId, dst: u32 },
    Copy { a: Op, dst: u32 },
    Rmw { op: u8, ty: TyId, p: Op, v: Op, dst: u32 },
    Cmpxchg { ty: TyId, p: Op, c: Op, n: Op, dst: u32 },
    Nop,
}

#[derive(Clone, Debug)]
pub enum Term {
    Ret(Option<Op>),
    Br(u32),
    Cond(Op, u32, u32),
    Switch(Op, u32, Vec<(u128, u32)>),
    Unreachable,
    Resume,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    pub term: Term,
    /// (pred block, [(dst reg, value)])
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub live_in: Vec<u32>,
    /// per predecessor: the operands giving the values of live_in on that edge
    pub edges: Vec<(u32, Vec<Op>)>,
    pub rank: u32,
}

#[derive(Debug)]
pub struct Func {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ninst: u32,
}

pub const NOREG: u32 = u32::MAX;

pub enum Sym {
    Global(u32),
    Func(u32),
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub parsed: Option<Rc<Func>>,
}

pub struct GlobalDecl {
    pub name: String,
    pub text: (usize, usize),
    pub external: bool,
}

pub struct Module {
    pub src: Rc<Vec<u8>>,
    pub types: Types,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<GlobalDecl>,
    pub syms: HashMap<String, Sym>,
    pub aliases: HashMap<String, String>,
    pub named: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub fn fn_addr(f: u32) -> u64 {
    FN_BASE + (f as u64) * 64
}
pub fn obj_addr(o: u32) -> u64 {
    ((o as u64) + 16) << 32
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

/// name after a sigil at position i (i points just behind the sigil); returns (name, next)
fn name_at(s: &[u8], i: usize) -> (String, usize) {
    if s[i] == b'"' {
        let mut j = i + 1;
        while s[j] != b'"' {
            j += 1;
        }
        (String::from_utf8_lossy(&s[i + 1..j]).into_owned(), j + 1)
    } else {
        let mut j = i;
        while j < s.len() && is_id(s[j]) {
            j += 1;
        }
        (String::from_utf8_lossy(&s[i..j]).into_owned(), j)
    }
}

impl Module {
    pub fn load(src: Vec<u8>) -> Module {
        let src = Rc::new(src);
        let s = &src[..];
        let mut m = Module {
            src: src.clone(),
            types: Types::new(),
            funcs: vec![],
            globals: vec![],
            syms: HashMap::new(),
            aliases: HashMap::new(),
            named: HashMap::new(),
        };
        let mut i = 0;
        while i < s.len() {
            let mut e = i;
            while e < s.len() && s[e] != b'\n' {
                e += 1;
            }
            let line = &s[i..e];
            if line.starts_with(b"@") {
                let (name, j) = name_at(s, i + 1);
                let rest = &s[j..e];
                let txt = String::from_utf8_lossy(&rest[..rest.len().min(200)]).into_owned();
                // not in the text of a constant
                let txt = txt.split('"').next().unwrap_or("").to_string();
                if let Some(k) = txt.find(" alias ") {
                    let full = String::from_utf8_lossy(rest).into_owned();
                    let at = full[k..].find('@').map(|x| x + k);
                    if let Some(at) = at {
                        let (tn, _) = name_at(full.as_bytes(), at + 1);
                        m.aliases.insert(name, tn);
                    }
                } else {
                    let id = m.globals.len() as u32;
                    let external = txt.contains("external ") || txt.contains("extern_weak ");
                    m.globals.push(GlobalDecl { name: name.clone(), text: (j, e), external });
                    m.syms.insert(name, Sym::Global(id));
                }
            } else if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let (name, _) = name_at(s, i + at + 1);
                let id = m.funcs.len() as u32;
                let mut body = None;
                if line.starts_with(b"define ") {
                    let st = i;
                    // find a line consisting of "}"
                    loop {
                        e += 1;
                        let ls = e;
                        while e < s.len() && s[e] != b'\n' {
                            e += 1;
                        }
                        if &s[ls..e] == b"}" || e >= s.len() {
                            break;
                        }
                    }
                    body = Some((st, e));
                }
                m.funcs.push(FuncDecl { name: name.clone(), body, parsed: None });
                m.syms.insert(name, Sym::Func(id));
            } else if line.starts_with(b"%") {
                let (name, j) = name_at(s, i + 1);
                let rest = String::from_utf8_lossy(&s[j..e]).into_owned();
                if let Some(k) = rest.find("= type ") {
                    m.named.insert(name, rest[k + 7..].to_string());
                }
            }
            i = e + 1;
        }
        m
    }

    pub fn sym_addr(&self, name: &str) -> u64 {
        match self.syms.get(name) {
            Some(Sym::Global(g)) => obj_addr(*g),
            Some(Sym::Func(f)) => fn_addr(*f),
            None => {
                if let Some(t) = self.aliases.get(name) {
                    return self.sym_addr(t);
                }
                fatal(&format!("unknown symbol @{name}"))
            }
        }
    }
    pub fn find_fn(&self, name: &str) -> Option<u32> {
        match self.syms.get(name) {
            Some(Sym::Func(f)) => Some(*f),
            Some(_) => None,
            None => self.aliases.get(name).and_then(|t| self.find_fn(t)),
        }
    }

    /// (value, type, is a constant) of a global's initialiser
    pub fn global_init(&mut self, g: u32) -> (Option<V>, TyId) {
        let (a, b) = self.globals[g as usize].text;
        let ext = self.globals[g as usize].external;
        let src = self.src.clone();
        let mut p = P { s: &src[..], i: a, end: b, m: self, regs: HashMap::new() };
        // " = private unnamed_addr constant TYPE INIT, align.."
        loop {
            p.ws();
            if p.eat("=") {
                continue;
            }
            let w = p.peek_word();
            if w == "constant" || w == "global" {
                p.word();
                break;
            }
            if w.is_empty() {
                fatal("global syntax");
            }
            p.word();
            p.skip_paren();
        }
        let ty = p.ty();
        if ext {
            return (None, ty);
        }
        let v = p.constant(ty);
        (Some(v), ty)
    }

    pub fn func(&mut self, f: u32) -> Rc<Func> {
        if let Some(x) = &self.funcs[f as usize].parsed {
            return x.clone();
        }
        let (a, b) = self.funcs[f as usize].body.unwrap();
        let src = self.src.clone();
        let mut p = P { s: &src[..], i: a, end: b, m: self, regs: HashMap::new() };
        let mut fu = p.function();
        crate::cfg::analyse(&mut fu);
        let fu = Rc::new(fu);
        self.funcs[f as usize].parsed = Some(fu.clone());
        fu
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    end: usize,
    m: &'a mut Module,
    regs: HashMap<String, u32>,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.end {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn c(&mut self) -> u8 {
        self.ws();
        if self.i < self.end {
            self.s[self.i]
        } else {
            0
        }
    }
    fn die(&self, what: &str) -> ! {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 120).min(self.end);
        fatal(&format!(
            "IR syntax: {what} at ...{}>>>{}",
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i..b])
        ))
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..self.end].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, t: &str) {
        if !self.eat(t) {
            self.die(&format!("expected '{t}'"));
        }
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.end && is_id(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, t: &str) -> bool {
        if self.peek_word() == t {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn skip_paren(&mut self) {
        if self.i < self.end && self.s[self.i] == b'(' {
            let mut d = 0;
            let mut q = false;
            while self.i < self.end {
                let c = self.s[self.i];
                if q {
                    if c == b'"' {
                        q = false;
                    }
                } else {
                    match c {
                        b'"' => q = true,
                        b'(' => d += 1,
                        b')' => {
                            d -= 1;
                            if d == 0 {
                                self.i += 1;
                                return;
                            }
                        }
                        _ => {}
                    }
                }
                self.i += 1;
            }
        }
    }
    fn skip_str(&mut self) {
        self.ws();
        if self.i < self.end && self.s[self.i] == b'"' {
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        let c = self.c();
        if c == b'<' || c == b'{' || c == b'[' || c == b'%' {
            return true;
        }
        let w = self.peek_word();
        matches!(
            w,
            "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token"
        ) || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    /// attributes and keywords between two interesting things
    fn skip_attrs(&mut self) {
        loop {
            let c = self.c();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                self.skip_str();
                if self.c() == b'=' {
                    self.i += 1;
                    self.skip_str();
                }
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' {
                return;
            }
            match w {
                "align" => {
                    self.word();
                    self.ws();
                    if self.s[self.i] == b'(' {
                        self.skip_paren();
                    } else {
                        self.word();
                    }
                }
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                | "inttoptr" | "bitcast" | "sub" | "add" | "trunc" | "asm" | "splat" | "none" | "c" | "to" | "xor"
                | "ptrtoaddr" | "addrspacecast" => return,
                _ => {
                    let save = self.i;
                    if self.at_type() {
                        self.i = save;
                        return;
                    }
                    self.word();
                    self.skip_paren();
                }
            }
        }
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        w.parse::<u64>().unwrap_or_else(|_| self.die("number"))
    }
    fn ty(&mut self) -> TyId {
        let c = self.c();
        let t = match c {
            b'<' => {
                self.i += 1;
                if self.c() == b'{' {
                    let es = self.struct_body();
                    self.exp(">");
                    Ty::Struct(es, true)
                } else {
                    let n = self.num();
                    self.exp("x");
                    let e = self.ty();
                    self.exp(">");
                    Ty::Vec(n as u32, e)
                }
            }
            b'{' => Ty::Struct(self.struct_body(), false),
            b'[' => {
                self.i += 1;
                let n = self.num();
                self.exp("x");
                let e = self.ty();
                self.exp("]");
                Ty::Arr(n, e)
            }
            b'%' => {
                let (n, j) = name_at(self.s, self.i + 1);
                self.i = j;
                let txt = self.m.named.get(&n).cloned().unwrap_or_else(|| self.die("named type"));
                if txt.trim() == "opaque" {
                    Ty::Void
                } else {
                    let b = txt.into_bytes();
                    let l = b.len();
                    let mut q = P { s: &b, i: 0, end: l, m: self.m, regs: HashMap::new() };
                    return q.ty();
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.skip_paren();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" | "bfloat" => Ty::FOther(16),
                    "fp128" => Ty::FOther(128),
                    "x86_fp80" => Ty::FOther(128),
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "token" => Ty::Token,
                    _ => {
                        if w.starts_with('i') {
                            if let Ok(n) = w[1..].parse::<u32>() {
                                Ty::Int(n)
                            } else {
                                self.die("type")
                            }
                        } else {
                            self.die("type")
                        }
                    }
                }
            }
        };
        let id = self.m.types.get(t);
        // function type: T (args)
        self.ws();
        if self.i < self.end && self.s[self.i] == b'(' && c != b'(' {
            // only meaningful in a call's callee type; the caller rewinds when it is a parameter list
        }
        id
    }
    fn struct_body(&mut self) -> Vec<TyId> {
        self.exp("{");
        let mut es = vec![];
        if self.c() == b'}' {
            self.i += 1;
            return es;
        }
        loop {
            es.push(self.ty());
            if self.eat(",") {
                continue;
            }
            self.exp("}");
            return es;
        }
    }
    fn zero(&mut self, t: TyId) -> V {
        match self.m.types.ty(t).clone() {
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(es, _) => V::A(Rc::new(es.iter().map(|e| self.zero(*e)).collect())),
            _ => V::C(0),
        }
    }
    fn undef(&mut self, t: TyId) -> V {
        match self.m.types.ty(t).clone() {
            Ty::Vec(n, _) => V::A(Rc::new(vec![V::U; n as usize])),
            Ty::Struct(es, _) => V::A(Rc::new(es.iter().map(|e| self.undef(*e)).collect())),
            _ => V::U,
        }
    }
    fn mask(&self, v: u128, t: TyId) -> u128 {
        let w = self.m.types.bits(t);
        if w >= 128 {
            v
        } else {
            v & ((1u128 << w) - 1)
        }
    }
    fn bytes_lit(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut out = vec![];
        loop {
            let c = self.s[self.i];
            if c == b'"' {
                self.i += 1;
                return out;
            }
            if c == b'\\' {
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                if let Ok(x) = u8::from_str_radix(h, 16) {
                    out.push(x);
                    self.i += 3;
                    continue;
                }
                out.push(b'\\');
                self.i += 2;
                continue;
            }
            out.push(c);
            self.i += 1;
        }
    }
    fn typed_const(&mut self) -> (TyId, V) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.constant(t);
        (t, v)
    }
    fn constant(&mut self, t: TyId) -> V {
        let c = self.c();
        match c {
            b'@' => {
                let (n, j) = name_at(self.s, self.i + 1);
                self.i = j;
                return V::C(self.m.sym_addr(&n) as u128);
            }
            b'[' | b'{' | b'<' => {
                self.i += 1;
                let mut close = if c == b'[' { "]" } else if c == b'{' { "}" } else { ">" };
                if c == b'<' && self.c() == b'{' {
                    self.i += 1;
                    close = "}";
                    let v = self.agg_body(close);
                    self.exp(">");
                    return v;
                }
                return self.agg_body(&mut close);
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                let b = self.bytes_lit();
                return V::A(Rc::new(b.into_iter().map(|x| V::C(x as u128)).collect()));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "null" | "false" => V::C(0),
            "true" => V::C(1),
            "none" => V::C(0),
            "undef" | "poison" => self.undef(t),
            "zeroinitializer" => self.zero(t),
            "splat" => {
                self.exp("(");
                let (_, v) = self.typed_const();
                self.exp(")");
                match self.m.types.ty(t).clone() {
                    Ty::Vec(n, _) => V::A(Rc::new(vec![v; n as usize])),
                    Ty::Arr(n, _) => V::A(Rc::new(vec![v; n as usize])),
                    _ => self.die("splat"),
                }
            }
            "getelementptr" => {
                loop {
                    let w = self.peek_word();
                    if w.is_empty() {
                        break;
                    }
                    self.word();
                    self.skip_paren_if_not_operand(w);
                }
                self.exp("(");
                let et = self.ty();
                self.exp(",");
                let (_, base) = self.typed_const();
                let mut idx = vec![];
                while self.eat(",") {
                    self.skip_attrs();
                    let (it, iv) = self.typed_const();
                    idx.push((it, iv));
                }
                self.exp(")");
                let mut off = base.c().unwrap_or(0) as u64;
                let mut cur = et;
                for (k, (it, iv)) in idx.iter().enumerate() {
                    let n = self.sx(iv.c().unwrap_or(0), *it) as u64;
                    if k == 0 {
                        off = off.wrapping_add(self.m.types.size(cur).wrapping_mul(n));
                    } else {
                        let (o, nt) = self.step(cur, n);
                        off = off.wrapping_add(o);
                        cur = nt;
                    }
                }
                V::C(off as u128)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" | "zext" => {
                self.exp("(");
                let (_, v) = self.typed_const();
                if !self.eat_word("to") {
                    self.die("to");
                }
                let t2 = self.ty();
                self.exp(")");
                match v {
                    V::C(x) => V::C(self.mask(x, t2)),
                    o => o,
                }
            }
            "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                while matches!(self.peek_word(), "nuw" | "nsw" | "disjoint") {
                    self.word();
                }
                self.exp("(");
                let (t1, a) = self.typed_const();
                self.exp(",");
                let (_, b) = self.typed_const();
                self.exp(")");
                let (a, b) = (a.c().unwrap_or(0), b.c().unwrap_or(0));
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "shl" => a << (b as u32 & 127),
                    _ => a.wrapping_mul(b),
                };
                V::C(self.mask(r, t1))
            }
            "dso_local_equivalent" | "no_cfi" => self.constant(t),
            _ => {
                let tt = self.m.types.ty(t).clone();
                match tt {
                    Ty::F32 | Ty::F64 | Ty::FOther(_) => {
                        let mut w = w.to_string();
                        // 1.000000e+00 : '+' is not an identifier character
                        if self.i < self.end && self.s[self.i] == b'+' {
                            self.i += 1;
                            w.push('+');
                            w.push_str(self.word());
                        }
                        let d = if let Some(h) = w.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
                        } else if let Some(h) = w.strip_prefix("f0x") {
                            let b = u64::from_str_radix(h, 16).unwrap_or(0);
                            if tt == Ty::F32 {
                                return V::C(b as u128);
                            }
                            f64::from_bits(b)
                        } else {
                            w.parse::<f64>().unwrap_or_else(|_| self.die("float"))
                        };
                        if tt == Ty::F32 {
                            V::C((d as f32).to_bits() as u128)
                        } else {
                            V::C(d.to_bits() as u128)
                        }
                    }
                    _ => {
                        if let Ok(x) = w.parse::<i128>() {
                            V::C(self.mask(x as u128, t))
                        } else if let Ok(x) = w.parse::<u128>() {
                            V::C(self.mask(x, t))
                        } else {
                            self.die(&format!("constant '{w}'"))
                        }
                    }
                }
            }
        }
    }
    fn skip_paren_if_not_operand(&mut self, w: &str) {
        // "inrange(-16, 32)" carries an argument list; "inbounds (" does not
        if w == "inrange" {
            self.ws();
            self.skip_paren();
        }
    }
    fn sx(&self, v: u128, t: TyId) -> i64 {
        let w = self.m.types.bits(t);
        if w >= 64 {
            v as i64
        } else {
            let sh = 64 - w;
            ((v as u64) << sh) as i64 >> sh
        }
    }
    fn step(&mut self, cur: TyId, n: u64) -> (u64, TyId) {
        match self.m.types.ty(cur).clone() {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.m.types.size(e).wrapping_mul(n), e),
            Ty::Struct(es, _) => (self.m.types.info[cur as usize].offs[n as usize], es[n as usize]),
            _ => self.die("gep into scalar"),
        }
    }
    fn agg_body(&mut self, close: &str) -> V {
        let mut es = vec![];
        if self.eat(close) {
            return V::A(Rc::new(es));
        }
        loop {
            let (_, v) = self.typed_const();
            es.push(v);
            if self.eat(",") {
                continue;
            }
            self.exp(close);
            return V::A(Rc::new(es));
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn operand(&mut self, t: TyId) -> Op {
        if self.c() == b'%' {
            let (n, j) = name_at(self.s, self.i + 1);
            self.i = j;
            return Op::R(self.reg(&n));
        }
        Op::K(self.constant(t))
    }
    fn typed_op(&mut self) -> (TyId, Op) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.operand(t);
        (t, o)
    }

    fn function(&mut self) -> Func {
        if !self.eat_word("define") {
            self.die("define");
        }
        // up to @name
        while self.s[self.i] != b'@' {
            self.i += 1;
        }
        let (_, j) = name_at(self.s, self.i + 1);
        self.i = j;
        self.exp("(");
        let mut params = vec![];
        let mut unnamed = 0;
        if !self.eat(")") {
            loop {
                if self.eat("...") {
                    self.exp(")");
                    break;
                }
                let _t = self.ty();
                self.skip_attrs();
                if self.c() == b'%' {
                    let (n, j) = name_at(self.s, self.i + 1);
                    self.i = j;
                    params.push(self.reg(&n));
                    if n.parse::<u32>().is_ok() {
                        unnamed += 1;
                    }
                } else {
                    params.push(self.reg(&format!("{unnamed}")));
                    unnamed += 1;
                }
                if self.eat(",") {
                    continue;
                }
                self.exp(")");
                break;
            }
        }
        // rest of the header up to " {\n"
        loop {
            while self.s[self.i] != b'{' {
                if self.s[self.i] == b'"' {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                self.i += 1;
            }
            if self.s[self.i + 1] == b'\n' {
                self.i += 1;
                break;
            }
            self.i += 1;
        }
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut phis: Vec<Vec<(u32, Vec<(Op, String)>)>> = vec![];
        let mut defined: Vec<u32> = vec![];
        fn lab(l: &mut HashMap<String, u32>, n: &str) -> u32 {
            let k = l.len() as u32;
            *l.entry(n.to_string()).or_insert(k)
        }
        let entry_name = format!("{unnamed}");
        let mut cur: Option<u32> = None;
        let mut insts: Vec<Inst> = vec![];
        let mut cphis: Vec<(u32, Vec<(Op, String)>)> = vec![];
        let mut ninst = 0;
        loop {
            let c = self.c();
            if c == b'}' || c == 0 {
                break;
            }
            // label?
            let save = self.i;
            let is_label = {
                if c == b'"' {
                    let (_, j) = name_at(self.s, self.i);
                    j < self.end && self.s[j] == b':'
                } else {
                    let w = self.peek_word();
                    !w.is_empty() && self.i + w.len() < self.end && self.s[self.i + w.len()] == b':'
                }
            };
            self.i = save;
            if is_label {
                let (n, j) = name_at(self.s, self.i);
                self.i = j + 1;
                let b = lab(&mut labels, &n);
                cur = Some(b);
                defined.push(b);
                continue;
            }
            if cur.is_none() {
                let b = lab(&mut labels, &entry_name);
                cur = Some(b);
                defined.push(b);
            }
            if c == b'#' {
                // debug record
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            ninst += 1;
            let mut dst = NOREG;
            if c == b'%' {
                let (n, j) = name_at(self.s, self.i + 1);
                self.i = j;
                self.exp("=");
                dst = self.reg(&n);
            }
            let mut term = None;
            let w = self.word();
            match w {
                "phi" => {
                    while matches!(self.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") {
                        self.word();
                    }
                    let t = self.ty();
                    let mut inc = vec![];
                    loop {
                        self.exp("[");
                        let o = self.operand(t);
                        self.exp(",");
                        self.exp("%");
                        let (n, j) = name_at(self.s, self.i);
                        self.i = j;
                        self.exp("]");
                        inc.push((o, n));
                        if !self.eat(",") {
                            break;
                        }
                        if self.c() == b'!' {
                            break;
                        }
                    }
                    cphis.push((dst, inc));
                }
                "ret" => {
                    let t = self.ty();
                    if *self.m.types.ty(t) == Ty::Void {
                        term = Some(Term::Ret(None));
                    } else {
                        let o = self.operand(t);
                        term = Some(Term::Ret(Some(o)));
                    }
                }
                "br" => {
                    if self.eat_word("label") {
                        let n = self.label();
                        term = Some(Term::Br(lab(&mut labels, &n)));
                    } else {
                        let (_, c) = self.typed_op();
                        self.exp(",");
                        self.eat_word("label");
                        let a = self.label();
                        self.exp(",");
                        self.eat_word("label");
                        let b = self.label();
                        let a = lab(&mut labels, &a);
                        let b = lab(&mut labels, &b);
                        term = Some(Term::Cond(c, a, b));
                    }
                }
                "switch" => {
                    let (t, c) = self.typed_op();
                    self.exp(",");
                    self.eat_word("label");
                    let d = self.label();
                    let d = lab(&mut labels, &d);
                    self.exp("[");
                    let mut cases = vec![];
                    while !self.eat("]") {
                        let (_, v) = self.typed_const();
                        let _ = t;
                        self.exp(",");
                        self.eat_word("label");
                        let l = self.label();
                        let l = lab(&mut labels, &l);
                        cases.push((v.c().unwrap(), l));
                    }
                    term = Some(Term::Switch(c, d, cases));
                }
                "unreachable" => term = Some(Term::Unreachable),
                "resume" => {
                    self.typed_op();
                    term = Some(Term::Resume)
                }
                "landingpad" => {
                    let _ = self.ty();
                    loop {
                        let w = self.peek_word();
                        if w == "cleanup" {
                            self.word();
                        } else if w == "catch" || w == "filter" {
                            self.word();
                            self.typed_const();
                        } else {
                            break;
                        }
                    }
                    insts.push(Inst::Copy { a: Op::K(V::U), dst });
                }
                "invoke" | "call" | "tail" | "musttail" | "notail" => {
                    if w == "tail" || w == "musttail" || w == "notail" {
                        self.word();
                    }
                    let inst = self.call(dst);
                    insts.push(inst);
                    if w == "invoke" {
                        self.eat_word("to");
                        self.eat_word("label");
                        let a = self.label();
                        self.eat_word("unwind");
                        self.eat_word("label");
                        let b = self.label();
                        let a = lab(&mut labels, &a);
                        lab(&mut labels, &b);
                        term = Some(Term::Br(a));
                    }
                }
                _ => {
                    let inst = self.inst(w, dst);
                    insts.push(inst);
                }
            }
            // metadata attachments and the rest of the line (unless a look-ahead already left the line)
            let mut k = self.i;
            while k > 0 && (self.s[k - 1] == b' ' || self.s[k - 1] == b'\t') {
                k -= 1;
            }
            let left = self.s[k - 1] == b'\n';
            while !left && self.i < self.end && self.s[self.i] != b'\n' {
                self.i += 1;
            }
            if let Some(term) = term {
                let b = cur.unwrap() as usize;
                while blocks.len() <= b.max(labels.len()) {
                    blocks.push(None);
                    phis.push(vec![]);
                }
                blocks[b] = Some(Block {
                    insts: std::mem::take(&mut insts),
                    term,
                    phis: vec![],
                    live_in: vec![],
                    edges: vec![],
                    rank: 0,
                });
                phis[b] = std::mem::take(&mut cphis);
            }
        }
        // renumber so that the entry is 0: the first label seen is the entry by construction unless a
        // branch target was met first, which cannot happen before the entry block itself
        let entry = defined[0];
        let n = labels.len();
        blocks.truncate(n);
        let mut bl: Vec<Block> = blocks
            .into_iter()
            .map(|b| {
                b.unwrap_or(Block { insts: vec![], term: Term::Unreachable, phis: vec![], live_in: vec![], edges: vec![], rank: 0 })
            })
            .collect();
        for (b, ph) in phis.into_iter().enumerate().take(n) {
            let mut per: Vec<(u32, Vec<(u32, Op)>)> = vec![];
            for (dst, inc) in ph {
                for (o, l) in inc {
                    let p = labels[&l];
                    let e = match per.iter_mut().find(|x| x.0 == p) {
                        Some(e) => e,
                        None => {
                            per.push((p, vec![]));
                            per.last_mut().unwrap()
                        }
                    };
                    if !e.1.iter().any(|x| x.0 == dst) {
                        e.1.push((dst, o));
                    }
                }
            }
            bl[b].phis = per;
        }
        if entry != 0 {
            self.die("entry block is not first");
        }
        Func { nregs: self.regs.len() as u32, params, blocks: bl, ninst }
    }
    fn label(&mut self) -> String {
        self.exp("%");
        let (n, j) = name_at(self.s, self.i);
        self.i = j;
        n
    }
    fn call(&mut self, dst: u32) -> Inst {
        // [fast-math] [cconv] [ret attrs] type|fnty callee(args)
        self.skip_attrs();
        let ret = self.ty();
        self.ws();
        if self.s[self.i] == b'(' {
            // function type
            self.skip_paren();
        }
        self.ws();
        if self.peek_word() == "asm" {
            self.word();
            loop {
                let w = self.peek_word();
                if w.is_empty() {
                    break;
                }
                self.word();
            }
            self.skip_str();
            self.exp(",");
            self.skip_str();
            self.exp("(");
            let args = self.args();
            return Inst::Call { f: Callee::Asm, args, ret, dst };
        }
        let c = self.c();
        let f = if c == b'@' {
            let (n, j) = name_at(self.s, self.i + 1);
            self.i = j;
            match self.m.find_fn(&n) {
                Some(f) => Callee::Direct(f),
                None => self.die(&format!("callee {n}")),
            }
        } else {
            let pt = self.m.types.get(Ty::Ptr);
            Callee::Indirect(self.operand(pt))
        };
        self.exp("(");
        let args = self.args();
        // attributes, operand bundles and metadata up to the end of the line
        while self.i < self.end && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        Inst::Call { f, args, ret, dst }
    }
    fn args(&mut self) -> Vec<(TyId, Op)> {
        let mut v = vec![];
        if self.eat(")") {
            return v;
        }
        loop {
            let t = self.ty();
            if *self.m.types.ty(t) == Ty::Meta {
                // metadata argument: skip to the closing , or )
                let mut d = 0;
                loop {
                    let c = self.s[self.i];
                    if d == 0 && (c == b',' || c == b')') {
                        break;
                    }
                    if c == b'(' {
                        d += 1;
                    }
                    if c == b')' {
                        d -= 1;
                    }
                    self.i += 1;
                }
                v.push((t, Op::K(V::U)));
            } else {
                self.skip_attrs();
                let o = self.operand(t);
                v.push((t, o));
            }
            if self.eat(",") {
                continue;
            }
            self.exp(")");
            return v;
        }
    }
    fn flags(&mut self) {
        while matches!(
            self.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract"
                | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak"
        ) {
            self.word();
        }
    }
    fn inst(&mut self, w: &str, dst: u32) -> Inst {
        use BinOp::*;
        let bop = match w {
            "add" => Some(Add),
            "sub" => Some(Sub),
            "mul" => Some(Mul),
            "udiv" => Some(UDiv),
            "sdiv" => Some(SDiv),
            "urem" => Some(URem),
            "srem" => Some(SRem),
            "shl" => Some(Shl),
            "lshr" => Some(LShr),
            "ashr" => Some(AShr),
            "and" => Some(And),
            "or" => Some(Or),
            "xor" => Some(Xor),
            "fadd" => Some(FAdd),
            "fsub" => Some(FSub),
            "fmul" => Some(FMul),
            "fdiv" => Some(FDiv),
            "frem" => Some(FRem),
            _ => None,
        };
        if let Some(op) = bop {
            self.flags();
            let (ty, a) = self.typed_op();
            self.exp(",");
            let b = self.operand(ty);
            return Inst::Bin { op, ty, a, b, dst };
        }
        match w {
            "fneg" => {
                self.flags();
                let (ty, a) = self.typed_op();
                Inst::Bin { op: FNeg, ty, a: a.clone(), b: a, dst }
            }
            "icmp" => {
                self.flags();
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => self.die("icmp"),
                };
                let (ty, a) = self.typed_op();
                self.exp(",");
                let b = self.operand(ty);
                Inst::Icmp { p, ty, a, b, dst }
            }
            "fcmp" => {
                self.flags();
                let w = self.word();
                // bits: 1=eq 2=gt 4=lt 8=unordered
                let k = match w {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    "true" => 15,
                    _ => self.die("fcmp"),
                };
                let (ty, a) = self.typed_op();
                self.exp(",");
                let b = self.operand(ty);
                Inst::Icmp { p: Pred::F(k), ty, a, b, dst }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "fptrunc" | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let (from, a) = self.typed_op();
                if !self.eat_word("to") {
                    self.die("to");
                }
                let to = self.ty();
                let c = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "bitcast" => Cast::Bitcast,
                    "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                        if self.m.types.bits(to) < self.m.types.bits(from) {
                            Cast::Trunc
                        } else {
                            Cast::Zext
                        }
                    }
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    _ => Cast::FpExt,
                };
                Inst::Cast { c, from, to, a, dst }
            }
            "select" => {
                self.flags();
                let (_, c) = self.typed_op();
                self.exp(",");
                let (_, a) = self.typed_op();
                self.exp(",");
                let (_, b) = self.typed_op();
                Inst::Select { c, a, b, dst }
            }
            "freeze" => {
                let (_, a) = self.typed_op();
                Inst::Copy { a, dst }
            }
            "load" => {
                self.flags();
                let ty = self.ty();
                self.exp(",");
                let (_, p) = self.typed_op();
                Inst::Load { ty, p, dst }
            }
            "store" => {
                self.flags();
                let (ty, v) = self.typed_op();
                self.exp(",");
                let (_, p) = self.typed_op();
                Inst::Store { ty, v, p }
            }
            "alloca" => {
                let t = self.ty();
                let mut n = 1u64;
                if self.eat(",") {
                    if self.at_type() {
                        let (_, o) = self.typed_op();
                        match o {
                            Op::K(V::C(x)) => n = x as u64,
                            _ => self.die("dynamic alloca"),
                        }
                    }
                }
                Inst::Alloca { size: self.m.types.size(t) * n, dst }
            }
            "getelementptr" => {
                loop {
                    let w = self.peek_word();
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        self.word();
                    } else if w == "inrange" {
                        self.word();
                        self.skip_paren();
                    } else {
                        break;
                    }
                }
                let et = self.ty();
                self.exp(",");
                let (bt, base) = self.typed_op();
                if let Ty::Vec(..) = self.m.types.ty(bt) {
                    self.die("vector gep");
                }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while self.eat(",") {
                    if self.c() == b'!' {
                        break;
                    }
                    let (it, o) = self.typed_op();
                    match o {
                        Op::K(V::C(x)) => {
                            let n = self.sx(x, it) as u64;
                            if first {
                                off = off.wrapping_add(self.m.types.size(cur).wrapping_mul(n));
                            } else {
                                let (o, nt) = self.step(cur, n);
                                off = off.wrapping_add(o);
                                cur = nt;
                            }
                        }
                        o => {
                            let sc;
                            if first {
                                sc = self.m.types.size(cur);
                            } else {
                                let (_, nt) = self.step(cur, 0);
                                sc = self.m.types.size(nt);
                                cur = nt;
                            }
                            let w = self.m.types.bits(it);
                            idx.push((sc, o, w));
                        }
                    }
                    first = false;
                }
                Inst::Gep { base, off, idx, dst }
            }
            "extractvalue" => {
                let (_, a) = self.typed_op();
                let mut path = vec![];
                while self.eat(",") {
                    if self.c() == b'!' {
                        break;
                    }
                    path.push(self.num() as u32);
                }
                Inst::Extract { path, a, dst }
            }
            "insertvalue" => {
                let (ty, a) = self.typed_op();
                self.exp(",");
                let (_, v) = self.typed_op();
                let mut path = vec![];
                while self.eat(",") {
                    if self.c() == b'!' {
                        break;
                    }
                    path.push(self.num() as u32);
                }
                Inst::Insert { path, a, v, ty, dst }
            }
            "extractelement" => {
                let (t, a) = self.typed_op();
                self.exp(",");
                let (_, i) = self.typed_op();
                Inst::ExtractEl { a, i, n: self.veclen(t), dst }
            }
            "insertelement" => {
                let (t, a) = self.typed_op();
                self.exp(",");
                let (_, v) = self.typed_op();
                self.exp(",");
                let (_, i) = self.typed_op();
                Inst::InsertEl { a, v, i, n: self.veclen(t), dst }
            }
            "shufflevector" => {
                let (t, a) = self.typed_op();
                self.exp(",");
                let (_, b) = self.typed_op();
                self.exp(",");
                let mt = self.ty();
                let mv = self.constant(mt);
                let mask = match mv {
                    V::A(x) => x.iter().map(|v| v.c().map(|c| c as u32)).collect(),
                    _ => self.die("shuffle mask"),
                };
                Inst::Shuffle { a, b, n: self.veclen(t), mask, dst }
            }
            "fence" => Inst::Nop,
            "atomicrmw" => {
                self.flags();
                let op = match self.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => self.die("atomicrmw"),
                };
                let (_, p) = self.typed_op();
                self.exp(",");
                let (ty, v) = self.typed_op();
                Inst::Rmw { op, ty, p, v, dst }
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.typed_op();
                self.exp(",");
                let (ty, c) = self.typed_op();
                self.exp(",");
                let (_, n) = self.typed_op();
                Inst::Cmpxchg { ty, p, c, n, dst }
            }
            _ => self.die(&format!("instruction '{w}'")),
        }
    }
    fn veclen(&self, t: TyId) -> u32 {
        match self.m.types.ty(t) {
            Ty::Vec(n, _) => *n,
            _ => fatal("not a vector"),
        }
    }
}
