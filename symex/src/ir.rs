//! Reader for rustc's textual LLVM IR: module index plus on-demand compilation of functions
//! into a register byte code.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Half,
    Float,
    Double,
    Fp128,
    Ptr,
    Array(u64, TyId),
    Vector(u64, TyId),
    Struct(Vec<TyId>, bool),
    Opaque,
    Label,
    Metadata,
    Func,
}

#[derive(Default)]
pub struct Types {
    pub v: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    size: Vec<(u64, u64)>,
}

impl Types {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.map.get(&t) {
            return *i;
        }
        let i = self.v.len() as u32;
        let sz = self.calc(&t);
        self.v.push(t.clone());
        self.size.push(sz);
        self.map.insert(t, i);
        i
    }
    fn calc(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Func | Ty::Opaque => (0, 1),
            Ty::Int(b) => match *b {
                0..=8 => (1, 1),
                9..=16 => (2, 2),
                17..=32 => (4, 4),
                33..=64 => (8, 8),
                65..=128 => (16, 16),
                n => (((n as u64 + 127) / 128) * 16, 16),
            },
            Ty::Half => (2, 2),
            Ty::Float => (4, 4),
            Ty::Double => (8, 8),
            Ty::Fp128 => (16, 16),
            Ty::Ptr => (8, 8),
            Ty::Array(n, e) => {
                let (s, a) = self.size[*e as usize];
                (s * n, a)
            }
            Ty::Vector(n, e) => {
                let bits = self.bits(*e) as u64 * n;
                let s = (bits + 7) / 8;
                let a = s.next_power_of_two().max(1);
                (s, a)
            }
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1u64;
                for x in f {
                    let (s, a) = self.size[*x as usize];
                    let a = if *packed { 1 } else { a };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + s;
                }
                ((o + al - 1) / al * al, al)
            }
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.size[t as usize].0
    }
    pub fn align(&self, t: TyId) -> u64 {
        self.size[t as usize].1
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.v[t as usize]
    }
    /// scalar bit width (0 for aggregates)
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.v[t as usize] {
            Ty::Int(b) => *b,
            Ty::Half => 16,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Fp128 => 128,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.v[t as usize] {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, x) in f.iter().enumerate() {
                    let (s, a) = self.size[*x as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, *x);
                    }
                    o += s;
                }
                panic!("field index")
            }
            Ty::Array(_, e) => (self.size(*e) * i as u64, *e),
            Ty::Vector(_, e) => ((self.bits(*e) as u64 / 8) * i as u64, *e),
            x => panic!("field_off of {:?}", x),
        }
    }
    pub fn nfields(&self, t: TyId) -> usize {
        match &self.v[t as usize] {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

pub type ModId = u32;
pub type FuncId = u32;
pub type GlobId = u32;

pub struct Module {
    pub path: String,
    pub text: &'static [u8],
    pub local: HashMap<&'static [u8], Sym>,
    pub named: HashMap<&'static [u8], &'static [u8]>,
    pub named_ty: HashMap<&'static [u8], TyId>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sym {
    Func(FuncId),
    Glob(GlobId),
    Alias(u32),
}

pub struct FuncDecl {
    pub name: &'static [u8],
    pub module: ModId,
    /// text from "define" to the closing brace; empty for external functions
    pub text: &'static [u8],
    pub code: Option<Rc<Func>>,
    pub hook: u32,
    pub called: u64,
}

pub struct GlobDecl {
    pub name: &'static [u8],
    pub module: ModId,
    pub text: &'static [u8],
    pub addr: u64,
    pub size: u64,
    pub konst: bool,
    pub init: bool,
    pub external: bool,
    pub ty: TyId,
    pub init_text: &'static [u8],
}

#[derive(Clone, Debug)]
pub enum K {
    /// up to 64 bits, floats as bits, pointers as addresses
    C(u64),
    W(u128),
    A(Rc<[K]>),
}

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    /// constant <= 64 bits
    C(u64),
    /// index in Func::consts
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(FuncId),
    Intrinsic(&'static str),
    Indirect(O),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { d: u32, op: B, ty: TyId, w: u32, a: O, b: O },
    Icmp { d: u32, p: P, ty: TyId, w: u32, a: O, b: O },
    Fcmp { d: u32, p: u8, ty: TyId, a: O, b: O },
    FNeg { d: u32, ty: TyId, a: O },
    Cast { d: u32, op: Cast, from: TyId, to: TyId, a: O },
    Select { d: u32, cty: TyId, ty: TyId, c: O, a: O, b: O },
    Alloca { d: u32, size: u64, align: u64, n: O },
    Load { d: u32, ty: TyId, p: O },
    Store { ty: TyId, v: O, p: O },
    Gep { d: u32, base: O, off: u64, idx: Rc<[(O, u64, u32)]> },
    Br { t: u32 },
    CondBr { c: O, t: u32, f: u32 },
    Switch { w: u32, v: O, def: u32, cases: Rc<[(u64, u32)]> },
    Ret { v: Option<O> },
    Unreachable,
    Call { d: u32, ret: TyId, callee: Callee, args: Rc<[(O, TyId)]> },
    Extract { d: u32, a: O, idx: Rc<[u32]> },
    Insert { d: u32, ty: TyId, a: O, v: O, idx: Rc<[u32]> },
    ExtractEl { d: u32, ty: TyId, a: O, i: O },
    InsertEl { d: u32, ty: TyId, a: O, v: O, i: O },
    Shuffle { d: u32, ty: TyId, a: O, b: O, mask: Rc<[i32]> },
    CmpXchg { d: u32, ty: TyId, p: O, c: O, n: O },
    AtomicRmw { d: u32, ty: TyId, op: Rc<str>, p: O, v: O },
    Copy { d: u32, a: O },
    Nop,
    Bad(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    pub start: u32,
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: FuncId,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<I>,
    pub blocks: Vec<Block>,
    pub consts: Vec<(K, TyId)>,
}

pub const NODST: u32 = u32::MAX;
pub const FUNC_BASE: u64 = 0x0010_0000_0000;
pub const GLOB_BASE: u64 = 0x0020_0000_0000;

pub struct Prog {
    pub types: Types,
    pub mods: Vec<Module>,
    pub funcs: Vec<FuncDecl>,
    pub globs: Vec<GlobDecl>,
    pub aliases: Vec<(ModId, &'static [u8])>,
    pub syms: HashMap<&'static [u8], Sym>,
    pub next_glob: u64,
    /// sorted by address (allocation order)
    pub glob_order: Vec<(u64, GlobId)>,
    pub t_void: TyId,
    pub t_i1: TyId,
    pub t_i8: TyId,
    pub t_i32: TyId,
    pub t_i64: TyId,
    pub t_ptr: TyId,
}

fn is_sym_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

/// returns (name without sigil/quotes, rest)
fn take_name(s: &'static [u8]) -> (&'static [u8], &'static [u8]) {
    if s[0] == b'"' {
        let mut i = 1;
        while s[i] != b'"' {
            i += 1;
        }
        (&s[1..i], &s[i + 1..])
    } else {
        let mut i = 0;
        while i < s.len() && is_sym_char(s[i]) {
            i += 1;
        }
        (&s[..i], &s[i..])
    }
}

impl Prog {
    pub fn new() -> Prog {
        let mut types = Types::default();
        let t_void = types.intern(Ty::Void);
        let t_i1 = types.intern(Ty::Int(1));
        let t_i8 = types.intern(Ty::Int(8));
        let t_i32 = types.intern(Ty::Int(32));
        let t_i64 = types.intern(Ty::Int(64));
        let t_ptr = types.intern(Ty::Ptr);
        Prog {
            types,
            mods: vec![],
            funcs: vec![],
            globs: vec![],
            aliases: vec![],
            syms: HashMap::new(),
            next_glob: GLOB_BASE,
            glob_order: vec![],
            t_void,
            t_i1,
            t_i8,
            t_i32,
            t_i64,
            t_ptr,
        }
    }

    pub fn load(&mut self, path: &str) -> std::io::Result<()> {
        let text: &'static [u8] = Box::leak(std::fs::read(path)?.into_boxed_slice());
        let mid = self.mods.len() as u32;
        let mut m = Module {
            path: path.to_string(),
            text,
            local: HashMap::new(),
            named: HashMap::new(),
            named_ty: HashMap::new(),
        };
        let mut i = 0;
        let n = text.len();
        while i < n {
            let mut e = i;
            while e < n && text[e] != b'\n' {
                e += 1;
            }
            let line = &text[i..e];
            let next = e + 1;
            if line.is_empty() {
                i = next;
                continue;
            }
            match line[0] {
                b'@' => {
                    let (name, rest) = take_name(&line[1..]);
                    let rest_s = &rest[3..]; // " = "
                    let hdr_end = rest_s.len().min(120);
                    let hdr = std::str::from_utf8(&rest_s[..hdr_end]).unwrap_or("");
                    let first = hdr.split(' ').next().unwrap_or("");
                    let local = first == "private" || first == "internal";
                    // find keyword
                    let mut kw = "";
                    for w in hdr.split(' ') {
                        if w == "global" || w == "constant" || w == "alias" {
                            kw = w;
                            break;
                        }
                    }
                    if kw == "alias" {
                        // target symbol: last @name on the line before attributes
                        let p = rest_s.iter().position(|c| *c == b'@');
                        if let Some(p) = p {
                            let (t, _) = take_name(&rest_s[p + 1..]);
                            let id = self.aliases.len() as u32;
                            self.aliases.push((mid, t));
                            if local {
                                m.local.insert(name, Sym::Alias(id));
                            } else {
                                self.add_sym(name, Sym::Alias(id), first);
                            }
                        }
                    } else {
                        let external = first == "external" || first == "extern_weak";
                        let id = self.globs.len() as u32;
                        self.globs.push(GlobDecl {
                            name,
                            module: mid,
                            text: rest_s,
                            addr: 0,
                            size: 0,
                            konst: kw == "constant",
                            init: false,
                            external,
                            ty: 0,
                            init_text: b"",
                        });
                        if local {
                            m.local.insert(name, Sym::Glob(id));
                        } else if external {
                            m.local.entry(name).or_insert(Sym::Glob(id));
                        } else {
                            self.add_sym(name, Sym::Glob(id), first);
                        }
                    }
                }
                b'd' if line.starts_with(b"define ") => {
                    // find end
                    let mut j = next;
                    loop {
                        let mut e2 = j;
                        while e2 < n && text[e2] != b'\n' {
                            e2 += 1;
                        }
                        if e2 == j + 1 && text[j] == b'}' {
                            j = e2 + 1;
                            break;
                        }
                        j = e2 + 1;
                        if j >= n {
                            break;
                        }
                    }
                    let ft = &text[i..j.min(n)];
                    let p = line.iter().position(|c| *c == b'@').unwrap();
                    let hdr = std::str::from_utf8(&line[7..p.min(7 + 40)]).unwrap_or("");
                    let first = hdr.split(' ').next().unwrap_or("");
                    let local = first == "private" || first == "internal";
                    let (name, _) = take_name(&line[p + 1..]);
                    let id = self.funcs.len() as u32;
                    self.funcs.push(FuncDecl {
                        name,
                        module: mid,
                        text: ft,
                        code: None,
                        hook: 0,
                        called: 0,
                    });
                    if local {
                        m.local.insert(name, Sym::Func(id));
                    } else {
                        self.add_sym(name, Sym::Func(id), first);
                    }
                    i = j;
                    continue;
                }
                b'%' => {
                    let (name, rest) = take_name(&line[1..]);
                    // " = type ..."
                    if rest.len() > 8 {
                        m.named.insert(name, &rest[8..]);
                    }
                }
                _ => {}
            }
            i = next;
        }
        self.mods.push(m);
        Ok(())
    }

    fn add_sym(&mut self, name: &'static [u8], s: Sym, linkage: &str) {
        let weak = linkage == "weak" || linkage == "linkonce_odr" || linkage == "weak_odr";
        if weak {
            self.syms.entry(name).or_insert(s);
        } else {
            self.syms.insert(name, s);
        }
    }

    pub fn lookup(&mut self, m: ModId, name: &'static [u8]) -> Sym {
        let mut cur = (m, name);
        for _ in 0..16 {
            let mut s = self.mods[cur.0 as usize].local.get(cur.1).copied();
            if let Some(Sym::Glob(g)) = s {
                if self.globs[g as usize].external {
                    if let Some(x) = self.syms.get(cur.1) {
                        s = Some(*x);
                    }
                }
            }
            if s.is_none() {
                s = self.syms.get(cur.1).copied();
            }
            match s {
                Some(Sym::Alias(a)) => cur = self.aliases[a as usize],
                Some(x) => return x,
                None => {
                    let id = self.funcs.len() as u32;
                    self.funcs.push(FuncDecl {
                        name: cur.1,
                        module: cur.0,
                        text: b"",
                        code: None,
                        hook: 0,
                        called: 0,
                    });
                    self.syms.insert(cur.1, Sym::Func(id));
                    return Sym::Func(id);
                }
            }
        }
        panic!("alias loop")
    }

    pub fn find_func(&self, name: &str) -> Option<FuncId> {
        match self.syms.get(name.as_bytes()) {
            Some(Sym::Func(f)) => Some(*f),
            _ => None,
        }
    }

    pub fn func_addr(f: FuncId) -> u64 {
        FUNC_BASE + f as u64 * 16
    }
    pub fn addr_func(&self, a: u64) -> Option<FuncId> {
        if a >= FUNC_BASE && a < FUNC_BASE + self.funcs.len() as u64 * 16 && a % 16 == 0 {
            Some(((a - FUNC_BASE) / 16) as u32)
        } else {
            None
        }
    }

    pub fn glob_addr(&mut self, g: GlobId) -> u64 {
        if self.globs[g as usize].addr != 0 {
            return self.globs[g as usize].addr;
        }
        let (mid, text) = {
            let d = &self.globs[g as usize];
            (d.module, d.text)
        };
        // skip to keyword
        let mut p = Ps { s: text, i: 0, m: mid };
        loop {
            let w = p.word();
            if w == b"global" || w == b"constant" {
                break;
            }
            if w == b"addrspace" || w.is_empty() {
                // (n)
                p.skip_parens();
            }
        }
        let ty = p.ty(self);
        p.ws();
        let d = &mut self.globs[g as usize];
        d.init_text = &text[p.i..];
        d.ty = ty;
        d.size = self.types.size(ty);
        // alignment
        let s = std::str::from_utf8(&text[text.len().saturating_sub(400)..]).unwrap_or("");
        let mut al = self.types.align(ty).max(1);
        if let Some(k) = s.rfind(", align ") {
            let t: String = s[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(a) = t.parse::<u64>() {
                al = al.max(a);
            }
        }
        let al = al.max(16);
        let a = (self.next_glob + al - 1) / al * al;
        let d = &mut self.globs[g as usize];
        d.addr = a;
        // red zone between globals
        self.next_glob = a + d.size + 32;
        self.glob_order.push((a, g));
        a
    }

    pub fn glob_at(&self, a: u64) -> Option<GlobId> {
        if a < GLOB_BASE || a >= self.next_glob {
            return None;
        }
        let i = self.glob_order.partition_point(|x| x.0 <= a);
        if i == 0 {
            return None;
        }
        let (b, g) = self.glob_order[i - 1];
        if a <= b + self.globs[g as usize].size {
            Some(g)
        } else {
            None
        }
    }

    /// evaluated initializer bytes
    pub fn glob_init(&mut self, g: GlobId) -> Vec<u8> {
        self.glob_addr(g);
        let (mid, text, ty, size, ext) = {
            let d = &self.globs[g as usize];
            (d.module, d.init_text, d.ty, d.size, d.external)
        };
        let mut out = vec![0u8; size as usize];
        if ext {
            return out;
        }
        let mut p = Ps { s: text, i: 0, m: mid };
        let k = p.konst(self, ty);
        self.put(&k, ty, &mut out, 0);
        out
    }

    fn put(&self, k: &K, ty: TyId, out: &mut [u8], off: usize) {
        match k {
            K::C(v) => {
                let s = self.types.size(ty) as usize;
                match self.types.get(ty) {
                    Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                        // zeroinitializer / undef
                        assert!(*v == 0);
                    }
                    _ => {
                        for i in 0..s.min(8) {
                            out[off + i] = (v >> (8 * i)) as u8;
                        }
                    }
                }
            }
            K::W(v) => {
                for i in 0..16 {
                    out[off + i] = (v >> (8 * i)) as u8;
                }
            }
            K::A(a) => {
                for (i, x) in a.iter().enumerate() {
                    let (o, t) = self.types.field_off(ty, i);
                    self.put(x, t, out, off + o as usize);
                }
            }
        }
    }

    pub fn compile(&mut self, f: FuncId) -> Rc<Func> {
        if let Some(c) = &self.funcs[f as usize].code {
            return c.clone();
        }
        let (text, m, name) = {
            let d = &self.funcs[f as usize];
            (d.text, d.module, d.name)
        };
        let c = Rc::new(compile(self, text, m, f, name));
        self.funcs[f as usize].code = Some(c.clone());
        c
    }
}

/// token-level parser over a piece of text
pub struct Ps {
    pub s: &'static [u8],
    pub i: usize,
    pub m: ModId,
}

impl Ps {
    #[inline]
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
        if self.s[self.i.min(self.s.len())..].starts_with(b"/*") {
            while !self.s[self.i..].starts_with(b"*/") {
                self.i += 1;
            }
            self.i += 2;
            self.ws();
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "expected '{}' at: {}",
                c as char,
                String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())])
            );
        }
    }
    fn word(&mut self) -> &'static [u8] {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') {
            self.i += 1;
        }
        &self.s[b..self.i]
    }
    fn peek_word(&mut self) -> &'static [u8] {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &[u8]) -> bool {
        let i = self.i;
        if self.word() == w {
            true
        } else {
            self.i = i;
            false
        }
    }
    fn skip_parens(&mut self) {
        if self.peek() != b'(' {
            return;
        }
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse().unwrap_or_else(|_| panic!("num {:?}", String::from_utf8_lossy(w)))
    }

    pub fn ty(&mut self, p: &mut Prog) -> TyId {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.num();
                assert!(self.eat_word(b"x"));
                let e = self.ty(p);
                self.expect(b']');
                p.types.intern(Ty::Array(n, e))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.struct_ty(p, true);
                    self.expect(b'>');
                    t
                } else {
                    let n = self.num();
                    assert!(self.eat_word(b"x"));
                    let e = self.ty(p);
                    self.expect(b'>');
                    p.types.intern(Ty::Vector(n, e))
                }
            }
            b'{' => self.struct_ty(p, false),
            b'%' => {
                self.i += 1;
                let (n, rest) = take_name(&self.s[self.i..]);
                self.i = self.s.len() - rest.len();
                if let Some(t) = p.mods[self.m as usize].named_ty.get(n) {
                    return *t;
                }
                let def = *p.mods[self.m as usize].named.get(n).unwrap_or(&(&b"opaque"[..]));
                let mut q = Ps { s: def, i: 0, m: self.m };
                let t = q.ty(p);
                p.mods[self.m as usize].named_ty.insert(n, t);
                t
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => p.t_void,
                    b"ptr" => {
                        if self.peek_word() == b"addrspace" {
                            self.word();
                            self.skip_parens();
                        }
                        p.t_ptr
                    }
                    b"half" => p.types.intern(Ty::Half),
                    b"float" => p.types.intern(Ty::Float),
                    b"double" => p.types.intern(Ty::Double),
                    b"fp128" => p.types.intern(Ty::Fp128),
                    b"label" => p.types.intern(Ty::Label),
                    b"metadata" => p.types.intern(Ty::Metadata),
                    b"opaque" => p.types.intern(Ty::Opaque),
                    _ if w.len() > 1 && w[0] == b'i' => {
                        let n: u32 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap();
                        p.types.intern(Ty::Int(n))
                    }
                    _ => panic!("type? {} in {}", String::from_utf8_lossy(&self.s[self.i.saturating_sub(20)..(self.i + 60).min(self.s.len())]), p.mods[self.m as usize].path),
                }
            }
        }
    }
    fn struct_ty(&mut self, p: &mut Prog, packed: bool) -> TyId {
        self.expect(b'{');
        let mut f = vec![];
        if self.peek() != b'}' {
            loop {
                f.push(self.ty(p));
                if !self.eat(b',') {
                    break;
                }
            }
        }
        self.expect(b'}');
        p.types.intern(Ty::Struct(f, packed))
    }

    fn zero(&self, p: &Prog, ty: TyId) -> K {
        match p.types.get(ty) {
            Ty::Struct(f, _) => K::A(f.iter().map(|t| self.zero(p, *t)).collect::<Vec<_>>().into()),
            Ty::Array(n, e) => {
                if *n > 4096 {
                    return K::C(0);
                }
                let z = self.zero(p, *e);
                K::A(vec![z; *n as usize].into())
            }
            Ty::Vector(n, e) => {
                let z = self.zero(p, *e);
                K::A(vec![z; *n as usize].into())
            }
            _ => {
                if p.types.bits(ty) > 64 {
                    K::W(0)
                } else {
                    K::C(0)
                }
            }
        }
    }

    pub fn konst(&mut self, p: &mut Prog, ty: TyId) -> K {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let (n, rest) = take_name(&self.s[self.i..]);
                self.i = self.s.len() - rest.len();
                match p.lookup(self.m, n) {
                    Sym::Func(f) => K::C(Prog::func_addr(f)),
                    Sym::Glob(g) => K::C(p.glob_addr(g)),
                    _ => unreachable!(),
                }
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                        v.push(K::C(b'\\' as u64));
                        self.i += 2;
                    } else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(K::C(u8::from_str_radix(h, 16).unwrap() as u64));
                        self.i += 3;
                    } else {
                        v.push(K::C(self.s[self.i] as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                K::A(v.into())
            }
            b'{' | b'[' => {
                self.i += 1;
                let close = if c == b'{' { b'}' } else { b']' };
                let v = self.klist(p, close);
                K::A(v.into())
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.klist(p, b'}');
                    self.expect(b'>');
                    K::A(v.into())
                } else {
                    let v = self.klist(p, b'>');
                    K::A(v.into())
                }
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let b = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[b..self.i]).unwrap();
                self.number(p, ty, t)
            }
            _ => {
                let w = self.word();
                match w {
                    b"true" => K::C(1),
                    b"false" => K::C(0),
                    b"null" => K::C(0),
                    b"zeroinitializer" | b"undef" | b"poison" => self.zero(p, ty),
                    b"none" => K::C(0),
                    b"inf" => self.number(p, ty, "inf"),
                    b"nan" => self.number(p, ty, "nan"),
                    b"splat" => {
                        self.expect(b'(');
                        let t = self.ty(p);
                        let k = self.konst(p, t);
                        self.expect(b')');
                        let n = p.types.nfields(ty);
                        K::A(vec![k; n].into())
                    }
                    b"getelementptr" => {
                        while !matches!(self.peek(), b'(') {
                            let w = self.word();
                            if w == b"inrange" {
                                self.skip_parens();
                            }
                        }
                        self.expect(b'(');
                        let t = self.ty(p);
                        self.expect(b',');
                        let pt = self.ty(p);
                        let base = match self.konst(p, pt) {
                            K::C(v) => v,
                            _ => panic!(),
                        };
                        let mut cur = t;
                        let mut addr = base;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty(p);
                            let bits = p.types.bits(it);
                            let k = match self.konst(p, it) {
                                K::C(v) => sext(v, bits),
                                _ => panic!(),
                            };
                            if first {
                                addr = addr.wrapping_add((p.types.size(t) as i64).wrapping_mul(k) as u64);
                                first = false;
                            } else {
                                let (o, ft) = if let Ty::Array(_, e) = p.types.get(cur) {
                                    ((p.types.size(*e) as i64).wrapping_mul(k) as u64, *e)
                                } else {
                                    p.types.field_off(cur, k as usize)
                                };
                                addr = addr.wrapping_add(o);
                                cur = ft;
                            }
                        }
                        self.expect(b')');
                        K::C(addr)
                    }
                    b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"zext" | b"addrspacecast" => {
                        self.skip_flags();
                        self.expect(b'(');
                        let t = self.ty(p);
                        let k = self.konst(p, t);
                        assert!(self.eat_word(b"to"));
                        let t2 = self.ty(p);
                        self.expect(b')');
                        let bits = p.types.bits(t2);
                        match k {
                            K::C(v) => {
                                if bits > 64 {
                                    K::W(v as u128)
                                } else {
                                    K::C(mask(v, bits))
                                }
                            }
                            k => k,
                        }
                    }
                    b"add" | b"sub" | b"xor" | b"mul" | b"and" | b"or" | b"shl" => {
                        self.skip_flags();
                        self.expect(b'(');
                        let t = self.ty(p);
                        let a = self.konst(p, t);
                        self.expect(b',');
                        let t2 = self.ty(p);
                        let b = self.konst(p, t2);
                        self.expect(b')');
                        let bits = p.types.bits(t);
                        match (a, b) {
                            (K::C(a), K::C(b)) => K::C(mask(
                                match w {
                                    b"add" => a.wrapping_add(b),
                                    b"sub" => a.wrapping_sub(b),
                                    b"xor" => a ^ b,
                                    b"mul" => a.wrapping_mul(b),
                                    b"and" => a & b,
                                    b"or" => a | b,
                                    _ => a << b,
                                },
                                bits,
                            )),
                            _ => panic!("const expr wide"),
                        }
                    }
                    _ if w.starts_with(b"f0x") => {
                        let t = std::str::from_utf8(w).unwrap();
                        let v = u128::from_str_radix(&t[3..], 16).unwrap();
                        if p.types.bits(ty) > 64 {
                            K::W(v)
                        } else {
                            K::C(v as u64)
                        }
                    }
                    _ => panic!(
                        "constant? '{}' at {}",
                        String::from_utf8_lossy(w),
                        String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())])
                    ),
                }
            }
        }
    }
    fn skip_flags(&mut self) {
        loop {
            let w = self.peek_word();
            if matches!(w, b"nuw" | b"nsw" | b"exact" | b"inbounds" | b"disjoint" | b"nneg" | b"nusw" | b"samesign" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc") {
                self.word();
            } else {
                return;
            }
        }
    }
    fn number(&mut self, p: &Prog, ty: TyId, t: &str) -> K {
        match p.types.get(ty) {
            Ty::Int(b) => {
                if *b > 64 {
                    let v: u128 = if let Some(x) = t.strip_prefix('-') {
                        (x.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        t.parse::<u128>().unwrap()
                    };
                    let v = if *b < 128 { v & ((1u128 << b) - 1) } else { v };
                    K::W(v)
                } else {
                    let v: u64 = if t.starts_with('-') {
                        t.parse::<i64>().unwrap_or_else(|_| panic!("{}", t)) as u64
                    } else {
                        t.parse::<u64>().unwrap()
                    };
                    K::C(mask(v, *b))
                }
            }
            Ty::Double => K::C(parse_f64(t).to_bits()),
            Ty::Float => K::C((parse_f64(t) as f32).to_bits() as u64),
            Ty::Half | Ty::Fp128 => {
                // not interpreted
                if let Some(h) = t.strip_prefix("0xH") {
                    K::C(u64::from_str_radix(h, 16).unwrap())
                } else if p.types.bits(ty) > 64 {
                    K::W(0)
                } else {
                    K::C(0)
                }
            }
            x => panic!("number {} of {:?}", t, x),
        }
    }
    fn klist(&mut self, p: &mut Prog, close: u8) -> Vec<K> {
        let mut v = vec![];
        if self.peek() != close {
            loop {
                let t = self.ty(p);
                v.push(self.konst(p, t));
                if !self.eat(b',') {
                    break;
                }
            }
        }
        self.expect(close);
        v
    }
    fn skip_param_attrs(&mut self) {
        // attributes between a type and a value, or before a type
        loop {
            self.ws();
            if self.i >= self.s.len() {
                return;
            }
            let w = self.peek_word();
            match w {
                b"noundef" | b"nonnull" | b"noalias" | b"readonly" | b"readnone" | b"writeonly" | b"signext" | b"zeroext" | b"inreg" | b"nofree" | b"returned" | b"nocapture" | b"immarg" | b"swiftself" | b"nest" | b"noext" | b"dead_on_unwind" | b"writable" | b"allocptr" | b"dead_on_return" | b"allocalign" => {
                    self.word();
                    if self.peek() == b'(' && w == b"dead_on_return" {
                        self.skip_parens();
                    }
                }
                b"dereferenceable" | b"dereferenceable_or_null" | b"captures" | b"range" | b"sret" | b"byval" | b"initializes" | b"nofpclass" | b"elementtype" | b"byref" | b"preallocated" | b"inalloca" => {
                    self.word();
                    self.skip_parens();
                }
                b"align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.num();
                    }
                }
                _ => {
                    if self.peek() == b'"' {
                        // string attribute "x"="y"
                        self.i += 1;
                        while self.s[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                        if self.peek() == b'=' {
                            self.i += 1;
                            self.expect(b'"');
                            while self.s[self.i] != b'"' {
                                self.i += 1;
                            }
                            self.i += 1;
                        }
                        continue;
                    }
                    return;
                }
            }
        }
    }
}

fn parse_f64(t: &str) -> f64 {
    if t == "inf" || t == "+inf" {
        return f64::INFINITY;
    }
    if t == "-inf" {
        return f64::NEG_INFINITY;
    }
    if t == "nan" || t == "+nan" || t == "+qnan" {
        return f64::NAN;
    }
    if t == "-nan" || t == "-qnan" {
        return -f64::NAN;
    }
    if let Some(h) = t.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        t.parse().unwrap_or_else(|_| panic!("float {}", t))
    }
}

pub fn mask(v: u64, bits: u32) -> u64 {
    if bits >= 64 {
        v
    } else {
        v & ((1u64 << bits) - 1)
    }
}
pub fn sext(v: u64, bits: u32) -> i64 {
    if bits >= 64 || bits == 0 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}

struct Fc<'a> {
    p: &'a mut Prog,
    regs: HashMap<&'static [u8], u32>,
    labels: HashMap<&'static [u8], u32>,
    consts: Vec<(K, TyId)>,
    nregs: u32,
    nlabels: u32,
}

impl<'a> Fc<'a> {
    fn reg(&mut self, n: &'static [u8]) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn label(&mut self, n: &'static [u8]) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n, r);
        r
    }
    fn opd(&mut self, q: &mut Ps, ty: TyId) -> O {
        if q.peek() == b'%' {
            q.i += 1;
            let (n, rest) = take_name(&q.s[q.i..]);
            q.i = q.s.len() - rest.len();
            return O::R(self.reg(n));
        }
        let k = q.konst(self.p, ty);
        match k {
            K::C(v) => match self.p.types.get(ty) {
                Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                    self.consts.push((k, ty));
                    O::K(self.consts.len() as u32 - 1)
                }
                _ => O::C(v),
            },
            k => {
                self.consts.push((k, ty));
                O::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn ty_opd(&mut self, q: &mut Ps) -> (O, TyId) {
        let t = q.ty(self.p);
        q.skip_param_attrs();
        let o = self.opd(q, t);
        (o, t)
    }
    fn label_opd(&mut self, q: &mut Ps) -> u32 {
        assert!(q.eat_word(b"label"));
        q.expect(b'%');
        let (n, rest) = take_name(&q.s[q.i..]);
        q.i = q.s.len() - rest.len();
        self.label(n)
    }
}

fn intrinsic_static(n: &[u8]) -> &'static str {
    use std::cell::RefCell;
    thread_local! {static T: RefCell<HashMap<Vec<u8>, &'static str>> = RefCell::new(HashMap::new());}
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(s) = t.get(n) {
            return *s;
        }
        let s: &'static str = Box::leak(String::from_utf8_lossy(n).into_owned().into_boxed_str());
        t.insert(n.to_vec(), s);
        s
    })
}

fn compile(p: &mut Prog, text: &'static [u8], m: ModId, fid: FuncId, name: &[u8]) -> Func {
    let mut fc = Fc { p, regs: HashMap::new(), labels: HashMap::new(), consts: vec![], nregs: 0, nlabels: 0 };
    // header
    let eol = text.iter().position(|c| *c == b'\n').unwrap();
    let hdr = &text[..eol];
    let at = hdr.iter().position(|c| *c == b'@').unwrap();
    let (_, rest) = take_name(&hdr[at + 1..]);
    let mut q = Ps { s: hdr, i: hdr.len() - rest.len(), m };
    q.expect(b'(');
    let mut params = vec![];
    let mut unnamed = 0u32;
    if q.peek() != b')' {
        loop {
            if q.peek() == b'.' {
                break;
            }
            let _t = q.ty(fc.p);
            q.skip_param_attrs();
            if q.peek() == b'%' {
                q.i += 1;
                let (n, rest) = take_name(&q.s[q.i..]);
                q.i = q.s.len() - rest.len();
                params.push(fc.reg(n));
                if n.iter().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
            } else {
                let n: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
                unnamed += 1;
                params.push(fc.reg(n));
            }
            if !q.eat(b',') {
                break;
            }
        }
    }
    let mut code: Vec<I> = vec![];
    let mut starts: HashMap<u32, u32> = HashMap::new();
    let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, O)>)>> = HashMap::new();
    let mut cur: Option<u32> = None;
    let mut i = eol + 1;
    while i < text.len() {
        let mut e = i;
        while e < text.len() && text[e] != b'\n' {
            e += 1;
        }
        let mut line = &text[i..e];
        i = e + 1;
        if line.is_empty() || line[0] == b';' {
            continue;
        }
        if line[0] == b'}' {
            break;
        }
        if line[0] != b' ' {
            // label
            let (n, rest) = take_name(line);
            assert!(rest[0] == b':', "label? {}", String::from_utf8_lossy(line));
            let l = fc.label(n);
            starts.insert(l, code.len() as u32);
            cur = Some(l);
            continue;
        }
        if cur.is_none() {
            // unnamed entry block
            let n: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
            let l = fc.label(n);
            starts.insert(l, 0);
            cur = Some(l);
        }
        // multi-line switch
        if line.ends_with(b"[") {
            let b = i - line.len() - 1;
            loop {
                let mut e2 = i;
                while text[e2] != b'\n' {
                    e2 += 1;
                }
                let l2 = &text[i..e2];
                i = e2 + 1;
                if l2.starts_with(b"  ]") {
                    break;
                }
            }
            line = &text[b..i - 1];
        }
        let mut q = Ps { s: line, i: 0, m };
        let mut dst = NODST;
        if q.peek() == b'%' {
            q.i += 1;
            let (n, rest) = take_name(&q.s[q.i..]);
            q.i = q.s.len() - rest.len();
            dst = fc.reg(n);
            q.expect(b'=');
        }
        let ins = one(&mut fc, &mut q, dst, line);
        match ins {
            Ok(Some(x)) => code.push(x),
            Ok(None) => {
                // phi
                let t = q.ty(fc.p);
                let mut v = vec![];
                loop {
                    q.expect(b'[');
                    let o = fc.opd(&mut q, t);
                    q.expect(b',');
                    q.expect(b'%');
                    let (n, rest) = take_name(&q.s[q.i..]);
                    q.i = q.s.len() - rest.len();
                    let l = fc.label(n);
                    q.expect(b']');
                    v.push((l, o));
                    if !q.eat(b',') {
                        break;
                    }
                    if q.peek() != b'[' {
                        break;
                    }
                }
                phis.entry(cur.unwrap()).or_default().push((dst, v));
            }
            Err(s) => code.push(I::Bad(s.into())),
        }
    }
    let nl = fc.nlabels;
    let mut blocks = vec![];
    for l in 0..nl {
        blocks.push(Block { start: *starts.get(&l).unwrap_or(&u32::MAX), phis: phis.remove(&l).unwrap_or_default() });
    }
    Func { name: String::from_utf8_lossy(name).into_owned(), id: fid, nregs: fc.nregs, params, code, blocks, consts: fc.consts }
}

fn one(fc: &mut Fc, q: &mut Ps, d: u32, line: &[u8]) -> Result<Option<I>, String> {
    let mut w = q.word();
    if w == b"tail" || w == b"musttail" || w == b"notail" {
        w = q.word();
    }
    let r = match w {
        b"phi" => {
            q.skip_flags();
            return Ok(None);
        }
        b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
            q.skip_flags();
            let ty = q.ty(fc.p);
            let a = fc.opd(q, ty);
            q.expect(b',');
            let b = fc.opd(q, ty);
            let op = match w {
                b"add" => B::Add,
                b"sub" => B::Sub,
                b"mul" => B::Mul,
                b"udiv" => B::UDiv,
                b"sdiv" => B::SDiv,
                b"urem" => B::URem,
                b"srem" => B::SRem,
                b"shl" => B::Shl,
                b"lshr" => B::LShr,
                b"ashr" => B::AShr,
                b"and" => B::And,
                b"or" => B::Or,
                b"xor" => B::Xor,
                b"fadd" => B::FAdd,
                b"fsub" => B::FSub,
                b"fmul" => B::FMul,
                b"fdiv" => B::FDiv,
                _ => B::FRem,
            };
            let w = fc.p.types.bits(ty);
            I::Bin { d, op, ty, w, a, b }
        }
        b"fneg" => {
            q.skip_flags();
            let ty = q.ty(fc.p);
            let a = fc.opd(q, ty);
            I::FNeg { d, ty, a }
        }
        b"icmp" => {
            q.skip_flags();
            let pw = q.word();
            let p = match pw {
                b"eq" => P::Eq,
                b"ne" => P::Ne,
                b"ugt" => P::Ugt,
                b"uge" => P::Uge,
                b"ult" => P::Ult,
                b"ule" => P::Ule,
                b"sgt" => P::Sgt,
                b"sge" => P::Sge,
                b"slt" => P::Slt,
                b"sle" => P::Sle,
                _ => return Err("icmp pred".into()),
            };
            let ty = q.ty(fc.p);
            let a = fc.opd(q, ty);
            q.expect(b',');
            let b = fc.opd(q, ty);
            let w = fc.p.types.bits(ty);
            I::Icmp { d, p, ty, w, a, b }
        }
        b"fcmp" => {
            q.skip_flags();
            let pw = q.word();
            let p = match pw {
                b"false" => 0,
                b"oeq" => 1,
                b"ogt" => 2,
                b"oge" => 3,
                b"olt" => 4,
                b"ole" => 5,
                b"one" => 6,
                b"ord" => 7,
                b"ueq" => 9,
                b"ugt" => 10,
                b"uge" => 11,
                b"ult" => 12,
                b"ule" => 13,
                b"une" => 14,
                b"uno" => 8,
                b"true" => 15,
                _ => return Err("fcmp".into()),
            };
            let ty = q.ty(fc.p);
            let a = fc.opd(q, ty);
            q.expect(b',');
            let b = fc.opd(q, ty);
            I::Fcmp { d, p, ty, a, b }
        }
        b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"fptrunc" | b"fpext" | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" => {
            q.skip_flags();
            let from = q.ty(fc.p);
            let a = fc.opd(q, from);
            assert!(q.eat_word(b"to"));
            let to = q.ty(fc.p);
            let op = match w {
                b"trunc" => Cast::Trunc,
                b"zext" => Cast::ZExt,
                b"sext" => Cast::SExt,
                b"ptrtoint" => Cast::PtrToInt,
                b"inttoptr" => Cast::IntToPtr,
                b"bitcast" => Cast::BitCast,
                b"fptrunc" => Cast::FpTrunc,
                b"fpext" => Cast::FpExt,
                b"fptoui" => Cast::FpToUi,
                b"fptosi" => Cast::FpToSi,
                b"uitofp" => Cast::UiToFp,
                _ => Cast::SiToFp,
            };
            I::Cast { d, op, from, to, a }
        }
        b"select" => {
            q.skip_flags();
            let (c, cty) = fc.ty_opd(q);
            q.expect(b',');
            let (a, ty) = fc.ty_opd(q);
            q.expect(b',');
            let (b, _) = fc.ty_opd(q);
            I::Select { d, cty, ty, c, a, b }
        }
        b"freeze" => {
            let (a, _) = fc.ty_opd(q);
            I::Copy { d, a }
        }
        b"alloca" => {
            q.eat_word(b"inalloca");
            let ty = q.ty(fc.p);
            let mut n = O::C(1);
            let mut align = fc.p.types.align(ty);
            while q.eat(b',') {
                if q.eat_word(b"align") {
                    align = q.num();
                } else if q.peek() == b'!' {
                    break;
                } else {
                    let (o, _) = fc.ty_opd(q);
                    n = o;
                }
            }
            I::Alloca { d, size: fc.p.types.size(ty), align: align.max(1), n }
        }
        b"load" => {
            q.eat_word(b"atomic");
            q.eat_word(b"volatile");
            let ty = q.ty(fc.p);
            q.expect(b',');
            let (p, _) = fc.ty_opd(q);
            I::Load { d, ty, p }
        }
        b"store" => {
            q.eat_word(b"atomic");
            q.eat_word(b"volatile");
            let (v, ty) = fc.ty_opd(q);
            q.expect(b',');
            let (p, _) = fc.ty_opd(q);
            I::Store { ty, v, p }
        }
        b"getelementptr" => {
            q.skip_flags();
            let t = q.ty(fc.p);
            q.expect(b',');
            let (base, bt) = fc.ty_opd(q);
            if !matches!(fc.p.types.get(bt), Ty::Ptr) {
                return Err("vector gep".into());
            }
            let mut off = 0u64;
            let mut idx: Vec<(O, u64, u32)> = vec![];
            let mut curt = t;
            let mut first = true;
            while q.eat(b',') {
                if q.peek() == b'!' {
                    break;
                }
                let (o, it) = fc.ty_opd(q);
                let bits = fc.p.types.bits(it);
                let (scale, nt) = if first {
                    first = false;
                    (fc.p.types.size(t), t)
                } else {
                    match fc.p.types.get(curt).clone() {
                        Ty::Array(_, e) => (fc.p.types.size(e), e),
                        Ty::Vector(_, e) => (fc.p.types.bits(e) as u64 / 8, e),
                        Ty::Struct(..) => {
                            let k = match o {
                                O::C(k) => k,
                                _ => return Err("gep struct idx".into()),
                            };
                            let (fo, ft) = fc.p.types.field_off(curt, k as usize);
                            off = off.wrapping_add(fo);
                            curt = ft;
                            continue;
                        }
                        _ => return Err("gep type".into()),
                    }
                };
                curt = nt;
                match o {
                    O::C(k) => off = off.wrapping_add((sext(k, bits) as u64).wrapping_mul(scale)),
                    _ => idx.push((o, scale, bits)),
                }
            }
            I::Gep { d, base, off, idx: idx.into() }
        }
        b"br" => {
            if q.peek_word() == b"label" {
                let t = fc.label_opd(q);
                I::Br { t }
            } else {
                let (c, _) = fc.ty_opd(q);
                q.expect(b',');
                let t = fc.label_opd(q);
                q.expect(b',');
                let f = fc.label_opd(q);
                I::CondBr { c, t, f }
            }
        }
        b"switch" => {
            let (v, ty) = fc.ty_opd(q);
            q.expect(b',');
            let def = fc.label_opd(q);
            // rest: newline separated cases
            let bits = fc.p.types.bits(ty);
            if bits > 64 {
                return Err("wide switch".into());
            }
            let mut cases = vec![];
            let bpos = q.s[q.i..].iter().position(|c| *c == b'[').unwrap() + q.i + 1;
            q.i = bpos;
            loop {
                while q.i < q.s.len() && (q.s[q.i] == b' ' || q.s[q.i] == b'\n') {
                    q.i += 1;
                }
                if q.s[q.i] == b']' {
                    break;
                }
                let t = q.ty(fc.p);
                let k = match q.konst(fc.p, t) {
                    K::C(v) => v,
                    _ => return Err("switch const".into()),
                };
                q.expect(b',');
                let l = fc.label_opd(q);
                cases.push((k, l));
            }
            I::Switch { w: bits, v, def, cases: cases.into() }
        }
        b"ret" => {
            let t = q.ty(fc.p);
            if t == fc.p.t_void {
                I::Ret { v: None }
            } else {
                let o = fc.opd(q, t);
                I::Ret { v: Some(o) }
            }
        }
        b"unreachable" => I::Unreachable,
        b"extractvalue" => {
            let (a, _) = fc.ty_opd(q);
            let mut idx = vec![];
            while q.eat(b',') {
                if q.peek() == b'!' {
                    break;
                }
                idx.push(q.num() as u32);
            }
            I::Extract { d, a, idx: idx.into() }
        }
        b"insertvalue" => {
            let (a, ty) = fc.ty_opd(q);
            q.expect(b',');
            let (v, _) = fc.ty_opd(q);
            let mut idx = vec![];
            while q.eat(b',') {
                if q.peek() == b'!' {
                    break;
                }
                idx.push(q.num() as u32);
            }
            I::Insert { d, ty, a, v, idx: idx.into() }
        }
        b"extractelement" => {
            let (a, ty) = fc.ty_opd(q);
            q.expect(b',');
            let (i, _) = fc.ty_opd(q);
            I::ExtractEl { d, ty, a, i }
        }
        b"insertelement" => {
            let (a, ty) = fc.ty_opd(q);
            q.expect(b',');
            let (v, _) = fc.ty_opd(q);
            q.expect(b',');
            let (i, _) = fc.ty_opd(q);
            I::InsertEl { d, ty, a, v, i }
        }
        b"shufflevector" => {
            let (a, ty) = fc.ty_opd(q);
            q.expect(b',');
            let (b, _) = fc.ty_opd(q);
            q.expect(b',');
            let mt = q.ty(fc.p);
            let mk = q.konst(fc.p, mt);
            let mask: Vec<i32> = match mk {
                K::A(v) => v
                    .iter()
                    .map(|k| match k {
                        K::C(v) => *v as i32,
                        _ => 0,
                    })
                    .collect(),
                _ => vec![0; fc.p.types.nfields(mt)],
            };
            I::Shuffle { d, ty, a, b, mask: mask.into() }
        }
        b"fence" => I::Nop,
        b"cmpxchg" => {
            q.eat_word(b"weak");
            q.eat_word(b"volatile");
            let (p, _) = fc.ty_opd(q);
            q.expect(b',');
            let (c, ty) = fc.ty_opd(q);
            q.expect(b',');
            let (n, _) = fc.ty_opd(q);
            I::CmpXchg { d, ty, p, c, n }
        }
        b"atomicrmw" => {
            q.eat_word(b"volatile");
            let op: Rc<str> = String::from_utf8_lossy(q.word()).into_owned().into();
            let (p, _) = fc.ty_opd(q);
            q.expect(b',');
            let (v, ty) = fc.ty_opd(q);
            I::AtomicRmw { d, ty, op, p, v }
        }
        b"call" => {
            // flags, cc, ret attrs
            loop {
                q.skip_flags();
                q.skip_param_attrs();
                let pw = q.peek_word();
                match pw {
                    b"fastcc" | b"ccc" | b"coldcc" | b"preserve_mostcc" | b"preserve_allcc" | b"preserve_nonecc" | b"tailcc" | b"win64cc" | b"x86_64_sysvcc" => {
                        q.word();
                    }
                    _ => break,
                }
            }
            let ret = q.ty(fc.p);
            // optional function type (...)
            if q.peek() == b'(' {
                q.skip_parens();
            }
            let callee;
            match q.peek() {
                b'@' => {
                    q.i += 1;
                    let (n, rest) = take_name(&q.s[q.i..]);
                    q.i = q.s.len() - rest.len();
                    if n.starts_with(b"llvm.") {
                        let s = intrinsic_static(n);
                        if s.starts_with("llvm.lifetime") || s == "llvm.assume" || s == "llvm.experimental.noalias.scope.decl" || s.starts_with("llvm.prefetch") {
                            return Ok(Some(I::Nop));
                        }
                        callee = Callee::Intrinsic(s);
                    } else {
                        callee = match fc.p.lookup(q.m, n) {
                            Sym::Func(f) => Callee::Direct(f),
                            _ => return Err("call of non function".into()),
                        };
                    }
                }
                b'%' => {
                    let o = fc.opd(q, fc.p.t_ptr);
                    callee = Callee::Indirect(o);
                }
                _ => {
                    let w = q.peek_word();
                    if w == b"asm" {
                        q.word();
                        let mut s = String::new();
                        // flags and template
                        loop {
                            q.ws();
                            if q.s[q.i] == b'"' {
                                let b = q.i + 1;
                                q.i += 1;
                                while q.s[q.i] != b'"' {
                                    q.i += 1;
                                }
                                s.push_str(&String::from_utf8_lossy(&q.s[b..q.i]));
                                q.i += 1;
                                if q.eat(b',') {
                                    s.push('|');
                                    continue;
                                }
                                break;
                            }
                            q.word();
                        }
                        callee = Callee::Asm(s.into());
                    } else {
                        let o = fc.opd(q, fc.p.t_ptr);
                        callee = Callee::Indirect(o);
                    }
                }
            }
            q.expect(b'(');
            let mut args = vec![];
            if q.peek() != b')' {
                loop {
                    let t = q.ty(fc.p);
                    if matches!(fc.p.types.get(t), Ty::Metadata) {
                        return Ok(Some(I::Nop));
                    }
                    q.skip_param_attrs();
                    let o = fc.opd(q, t);
                    args.push((o, t));
                    if !q.eat(b',') {
                        break;
                    }
                }
            }
            I::Call { d, ret, callee, args: args.into() }
        }
        _ => return Err(format!("unsupported: {}", String::from_utf8_lossy(line))),
    };
    Ok(Some(r))
}
