//! Hash-consed bit-vector expressions with a rewriting constructor, evaluation, and exact
//! value tables for expressions over a single small variable.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // b = low bit
    ZExt,
    SExt,
    // floats, operands as bit vectors of width 32/64
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FNan,
    FExt,   // 32 -> 64
    FTrunc, // 64 -> 32
    FToU,   // b = 1: saturating; a: float; w: result
    FToS,
    UToF,
    SToF,
    // to an integral value: down, up, towards zero, to nearest even, to nearest away; square root
    FFloor,
    FCeil,
    FInt,
    FRne,
    FRna,
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

/// values of an expression for every value of its only byte variable
#[derive(Clone)]
enum Tab {
    N(Rc<[u64]>),
    W(Rc<[u128]>),
    K(u128),
}
impl Tab {
    fn at(&self, i: usize) -> u128 {
        match self {
            Tab::N(t) => t[i] as u128,
            Tab::W(t) => t[i],
            Tab::K(k) => *k,
        }
    }
}

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<Node, Ex>,
    sup: Vec<u32>,
    size: Vec<u16>,
    pub sups: Vec<Rc<[u32]>>,
    sup_map: HashMap<Rc<[u32]>, u32>,
    sup_union: HashMap<(u32, u32), u32>,
    tabs: HashMap<Ex, Option<Tab>>,
    canon: HashMap<(u32, [u64; 4]), Ex>,
    bits: HashMap<Ex, [u64; 4]>,
    pub vars: Vec<VarInfo>,
    var_map: HashMap<String, Ex>,
    /// a value written to memory as these bytes
    pub whole: HashMap<[Ex; 8], Ex>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

pub static mut ARENA: *mut Arena = std::ptr::null_mut();

pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            let mut a = Box::new(Arena::default());
            let e: Rc<[u32]> = vec![].into();
            a.sups.push(e.clone());
            a.sup_map.insert(e, 0);
            ARENA = Box::into_raw(a);
        }
        &mut *ARENA
    }
}

pub fn m128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
fn s128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn evop(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128) -> u128 {
    let r = match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Not => !a,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (s128(a, w), s128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (s128(a, w), s128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = s128(a, w);
            if b >= w as u128 {
                (x >> 127) as u128
            } else {
                (x >> b) as u128
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (s128(a, aw) < s128(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat | Op::Extract | Op::ZExt | Op::SExt => unreachable!(),
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 64 {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                })
                .to_bits() as u128
            }
        }
        Op::FEq | Op::FLt | Op::FLe | Op::FNan => {
            let (x, y) = if aw == 64 {
                (f64::from_bits(a as u64), f64::from_bits(b as u64))
            } else {
                (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
            };
            (match op {
                Op::FEq => x == y,
                Op::FLt => x < y,
                Op::FLe => x <= y,
                _ => x.is_nan(),
            }) as u128
        }
        Op::FFloor | Op::FCeil | Op::FInt | Op::FRne | Op::FRna | Op::FSqrt => {
            let f = |x: f64| match op {
                Op::FFloor => x.floor(),
                Op::FCeil => x.ceil(),
                Op::FInt => x.trunc(),
                Op::FRne => x.round_ties_even(),
                Op::FRna => x.round(),
                _ => x.sqrt(),
            };
            if aw == 64 {
                f(f64::from_bits(a as u64)).to_bits() as u128
            } else {
                (f(f32::from_bits(a as u32) as f64) as f32).to_bits() as u128
            }
        }
        Op::FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::FToU | Op::FToS => {
            let x = if aw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
            if op == Op::FToU {
                let v = x as u128;
                if w < 128 {
                    v.min((1u128 << w) - 1)
                } else {
                    v
                }
            } else {
                let v = x as i128;
                let mx = if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
                let mn = if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) };
                v.clamp(mn, mx) as u128
            }
        }
        Op::UToF => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        Op::SToF => {
            let s = s128(a, aw);
            if w == 64 {
                (s as f64).to_bits() as u128
            } else {
                (s as f32).to_bits() as u128
            }
        }
    };
    m128(r, w)
}

pub type Model = Vec<u64>;

impl Arena {
    pub fn w(&self, e: Ex) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn node(&self, e: Ex) -> &Node {
        &self.n[e as usize]
    }
    pub fn cst(&self, e: Ex) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn support(&self, e: Ex) -> &[u32] {
        &self.sups[self.sup[e as usize] as usize]
    }
    pub fn sup_id(&self, e: Ex) -> u32 {
        self.sup[e as usize]
    }
    fn sup_intern(&mut self, v: Rc<[u32]>) -> u32 {
        if let Some(i) = self.sup_map.get(&v) {
            return *i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(v.clone());
        self.sup_map.insert(v, i);
        i
    }
    fn sup_un(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.sup_union.get(&key) {
            return *r;
        }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).copied().collect();
        v.sort();
        v.dedup();
        let r = self.sup_intern(v.into());
        self.sup_union.insert(key, r);
        r
    }
    /// the single variable of at most 8 bits this expression depends on
    pub fn byte_var(&self, e: Ex) -> Option<u32> {
        let s = self.support(e);
        if s.len() == 1 && self.vars[s[0] as usize].w <= 8 {
            Some(s[0])
        } else {
            None
        }
    }

    fn raw(&mut self, n: Node) -> Ex {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let s = match n.op {
            Op::Const => 0,
            Op::Var => self.sup_intern(vec![n.a].into()),
            Op::Extract => self.sup[n.a as usize],
            Op::Not | Op::ZExt | Op::SExt | Op::FNan | Op::FExt | Op::FTrunc | Op::FToU | Op::FToS | Op::UToF | Op::SToF | Op::FFloor | Op::FCeil | Op::FInt | Op::FRne | Op::FRna | Op::FSqrt => self.sup[n.a as usize],
            Op::Ite => {
                let x = self.sup_un(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.sup_un(x, self.sup[n.c as usize])
            }
            _ => self.sup_un(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let e = self.n.len() as Ex;
        self.n.push(n);
        self.sup.push(s);
        let sz = {
            let g = |x: Ex| self.size[x as usize] as u32;
            let t = match n.op {
                Op::Const | Op::Var => 1,
                Op::Extract | Op::Not | Op::ZExt | Op::SExt | Op::FNan | Op::FExt | Op::FTrunc | Op::FToU | Op::FToS | Op::UToF | Op::SToF | Op::FFloor | Op::FCeil | Op::FInt | Op::FRne | Op::FRna | Op::FSqrt => 1 + g(n.a),
                Op::Ite => 1 + g(n.a) + g(n.b) + g(n.c),
                _ => 1 + g(n.a) + g(n.b),
            };
            t.min(60000) as u16
        };
        self.size.push(sz);
        self.map.insert(n, e);
        if n.w == 1 && n.op != Op::Const {
            if let Some(v) = self.byte_var(e) {
                if let Some(t) = self.table(e) {
                    let full = self.full_set(v);
                    let mut s = [0u64; 4];
                    for (i, x) in t.iter().enumerate() {
                        if *x != 0 {
                            s[i / 64] |= 1 << (i % 64);
                        }
                    }
                    let r = if s == [0; 4] {
                        self.c(0, 1)
                    } else if s == full {
                        self.c(1, 1)
                    } else {
                        *self.canon.entry((v, s)).or_insert(e)
                    };
                    self.bits.insert(e, s);
                    if r != e {
                        self.map.insert(n, r);
                    }
                    return r;
                }
            }
        }
        e
    }

    /// number of nodes of the expression seen as a tree (saturating)
    pub fn size(&self, e: Ex) -> u32 {
        self.size[e as usize] as u32
    }
    /// values of `e` for every value of its only byte variable
    pub fn values(&mut self, e: Ex) -> Option<(u32, Vec<u128>)> {
        let v = self.byte_var(e)?;
        let t = self.tab(e)?;
        let n = 1usize << self.vars[v as usize].w;
        Some((v, (0..n).map(|i| t.at(i)).collect()))
    }
    pub fn full_set(&self, v: u32) -> [u64; 4] {
        let w = self.vars[v as usize].w;
        let mut s = [0u64; 4];
        for i in 0..(1usize << w) {
            s[i / 64] |= 1 << (i % 64);
        }
        s
    }
    /// for a 1-bit expression over one byte variable: the set of values making it true
    pub fn bitset(&mut self, e: Ex) -> Option<[u64; 4]> {
        self.bits.get(&e).copied()
    }

    /// values of `e` (at most 64 bits) for every value of its only (<= 8 bit) variable
    pub fn table(&mut self, e: Ex) -> Option<Rc<[u64]>> {
        if self.w(e) > 64 {
            return None;
        }
        match self.tab(e)? {
            Tab::N(t) => Some(t),
            _ => None,
        }
    }
    fn tab(&mut self, e: Ex) -> Option<Tab> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let v = self.byte_var(e)?;
        let size = 1usize << self.vars[v as usize].w;
        let n = self.n[e as usize];
        let r: Option<Tab> = (|| {
            let get = |s: &mut Self, x: Ex| -> Option<Tab> {
                if let Some(c) = s.cst(x) {
                    return Some(Tab::K(c));
                }
                s.tab(x)
            };
            let w = n.w as u32;
            let mk = |f: &mut dyn FnMut(usize) -> u128| -> Tab {
                if w > 64 {
                    Tab::W((0..size).map(|i| f(i)).collect::<Vec<_>>().into())
                } else {
                    Tab::N((0..size).map(|i| f(i) as u64).collect::<Vec<_>>().into())
                }
            };
            Some(match n.op {
                Op::Const => unreachable!(),
                Op::Var => mk(&mut |i| i as u128),
                Op::Extract => {
                    let a = get(self, n.a)?;
                    mk(&mut |i| m128(a.at(i) >> n.b, w))
                }
                Op::ZExt => {
                    let a = get(self, n.a)?;
                    mk(&mut |i| a.at(i))
                }
                Op::SExt => {
                    let aw = self.w(n.a);
                    let a = get(self, n.a)?;
                    mk(&mut |i| m128(s128(a.at(i), aw) as u128, w))
                }
                Op::Concat => {
                    let bw = self.w(n.b);
                    let a = get(self, n.a)?;
                    let b = get(self, n.b)?;
                    mk(&mut |i| a.at(i) << bw | b.at(i))
                }
                Op::Ite => {
                    let a = get(self, n.a)?;
                    let b = get(self, n.b)?;
                    let c = get(self, n.c)?;
                    mk(&mut |i| if a.at(i) != 0 { b.at(i) } else { c.at(i) })
                }
                Op::Not | Op::FNan | Op::FExt | Op::FTrunc | Op::FToU | Op::FToS | Op::UToF | Op::SToF | Op::FFloor | Op::FCeil | Op::FInt | Op::FRne | Op::FRna | Op::FSqrt => {
                    let aw = self.w(n.a);
                    let a = get(self, n.a)?;
                    mk(&mut |i| evop(n.op, w, aw, a.at(i), 0, 0))
                }
                _ => {
                    let aw = self.w(n.a);
                    let a = get(self, n.a)?;
                    let b = get(self, n.b)?;
                    mk(&mut |i| evop(n.op, w, aw, a.at(i), b.at(i), 0))
                }
            })
        })();
        self.tabs.insert(e, r.clone());
        r
    }

    pub fn c(&mut self, v: u128, w: u32) -> Ex {
        debug_assert!(w > 0 && w <= 128);
        self.raw(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: m128(v, w) })
    }
    pub fn var(&mut self, name: &str, w: u32) -> Ex {
        if let Some(e) = self.var_map.get(name) {
            assert!(self.w(*e) == w, "variable {} redeclared with another width", name);
            return *e;
        }
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w });
        let e = self.raw(Node { op: Op::Var, w: w as u16, a: id, b: 0, c: 0, k: 0 });
        self.var_map.insert(name.to_string(), e);
        if w == 1 {
            self.canon.insert((id, [2, 0, 0, 0]), e);
            self.bits.insert(e, [2, 0, 0, 0]);
        }
        e
    }
    fn mk2(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> Ex {
        self.raw(Node { op, w: w as u16, a, b, c: 0, k: 0 })
    }
    fn mk1(&mut self, op: Op, w: u32, a: Ex) -> Ex {
        self.raw(Node { op, w: w as u16, a, b: 0, c: 0, k: 0 })
    }

    fn const_ite(&self, e: Ex, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        let n = self.node(e);
        match n.op {
            Op::Const => true,
            Op::Ite => self.const_ite(n.b, budget) && self.const_ite(n.c, budget),
            _ => false,
        }
    }
    fn map_ite(&mut self, e: Ex, f: &mut dyn FnMut(&mut Arena, Ex) -> Ex) -> Ex {
        let n = *self.node(e);
        if n.op == Op::Ite {
            let x = self.map_ite(n.b, f);
            let y = self.map_ite(n.c, f);
            self.ite(n.a, x, y)
        } else {
            f(self, e)
        }
    }
    fn push_ite(&self, e: Ex) -> bool {
        if self.node(e).op != Op::Ite {
            return false;
        }
        let mut b = 24;
        self.const_ite(e, &mut b)
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let n = *self.node(a);
        match n.op {
            Op::Const => self.c(!n.k, w),
            Op::Not => n.a,
            _ => {
                if w == 1 && n.op == Op::And && self.n[n.a as usize].op == Op::Not && self.n[n.b as usize].op == Op::Not {
                    let x = self.n[n.a as usize].a;
                    let y = self.n[n.b as usize].a;
                    return self.or(x, y);
                }
                self.mk1(Op::Not, w, a)
            }
        }
    }

    fn low_mask_len(k: u128, w: u32) -> Option<u32> {
        // k == 2^n - 1, 0 < n < w
        let t = k.trailing_ones();
        if t > 0 && t < w && (k >> t) == 0 {
            Some(t)
        } else {
            None
        }
    }

    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        let (a, b) = if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cst(b) {
            if k == 0 {
                return b;
            }
            if k == m128(u128::MAX, w) {
                return a;
            }
            let n = *self.node(a);
            match n.op {
                Op::Const => return self.c(n.k & k, w),
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let kk = self.c(k, iw);
                    let x = self.and(n.a, kk);
                    return self.zext(x, w);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let kh = self.c(k >> lw, hw);
                    let kl = self.c(k, lw);
                    let h = self.and(n.a, kh);
                    let l = self.and(n.b, kl);
                    return self.concat(h, l);
                }
                Op::And => {
                    if let Some(k2) = self.cst(n.b) {
                        let kk = self.c(k & k2, w);
                        return self.and(n.a, kk);
                    }
                }
                _ => {}
            }
            if let Some(t) = Self::low_mask_len(k, w) {
                let x = self.extract(a, 0, t);
                return self.zext(x, w);
            }
            // high mask
            let tz = k.trailing_zeros();
            if tz > 0 && (k >> tz) == m128(u128::MAX, w - tz) {
                let h = self.extract(a, tz, w - tz);
                let z = self.c(0, tz);
                return self.concat(h, z);
            }
            // contiguous middle mask
            let ones = (k >> tz).trailing_ones();
            if tz > 0 && (k >> tz >> ones.min(127)) == 0 && tz + ones < w {
                let x = self.extract(a, tz, ones);
                let z = self.c(0, tz);
                let x = self.concat(x, z);
                return self.zext(x, w);
            }
            if self.push_ite(a) {
                return self.map_ite(a, &mut |s, x| s.and(x, b));
            }
        } else {
            if a == b {
                return a;
            }
            if w == 1 {
                let na = self.not_of(a);
                if na == Some(b) {
                    return self.c(0, 1);
                }
                if self.not_of(b) == Some(a) {
                    return self.c(0, 1);
                }
            }
        }
        self.mk2(Op::And, w, a, b)
    }
    fn not_of(&self, a: Ex) -> Option<Ex> {
        let n = self.node(a);
        if n.op == Op::Not {
            Some(n.a)
        } else {
            None
        }
    }

    /// split into (low..high) segments: (lo, width, expr)
    fn segs(&self, e: Ex, lo: u32, out: &mut Vec<(u32, u32, Ex)>) {
        let n = self.node(e);
        match n.op {
            Op::Concat => {
                let bw = self.w(n.b);
                self.segs(n.b, lo, out);
                self.segs(n.a, lo + bw, out);
            }
            _ => out.push((lo, n.w as u32, e)),
        }
    }
    /// if at every bit at least one operand is constant zero, merge by concatenation
    fn disjoint(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let isp = |s: &Self, e: Ex| matches!(s.node(e).op, Op::Concat | Op::ZExt);
        if !(isp(self, a) && isp(self, b)) {
            return None;
        }
        let w = self.w(a);
        let mut cuts = vec![];
        let mut collect = |s: &Self, e: Ex| -> Vec<(u32, u32, Ex)> {
            let mut v = vec![];
            let mut tmp = vec![];
            s.segs(e, 0, &mut tmp);
            for (lo, wd, x) in tmp {
                let n = s.node(x);
                if n.op == Op::ZExt {
                    let iw = s.w(n.a);
                    let mut t2 = vec![];
                    s.segs(n.a, lo, &mut t2);
                    v.extend(t2);
                    v.push((lo + iw, wd - iw, u32::MAX));
                } else if n.op == Op::Const && n.k == 0 {
                    v.push((lo, wd, u32::MAX));
                } else {
                    v.push((lo, wd, x));
                }
            }
            v
        };
        let sa = collect(self, a);
        let sb = collect(self, b);
        for (lo, _, _) in sa.iter().chain(sb.iter()) {
            cuts.push(*lo);
        }
        cuts.push(w);
        cuts.sort();
        cuts.dedup();
        let find = |v: &Vec<(u32, u32, Ex)>, lo: u32| -> (u32, Ex) {
            for (l, wd, x) in v {
                if lo >= *l && lo < l + wd {
                    return (*l, *x);
                }
            }
            unreachable!()
        };
        let mut parts = vec![];
        for i in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[i], cuts[i + 1]);
            let (la, xa) = find(&sa, lo);
            let (lb, xb) = find(&sb, lo);
            if xa != u32::MAX && xb != u32::MAX {
                return None;
            }
            parts.push((lo, hi, if xa != u32::MAX { (la, xa) } else { (lb, xb) }));
        }
        let mut acc: Option<Ex> = None;
        for (lo, hi, (l, x)) in parts {
            let p = if x == u32::MAX { self.c(0, hi - lo) } else { self.extract(x, lo - l, hi - lo) };
            acc = Some(match acc {
                None => p,
                Some(y) => self.concat(p, y),
            });
        }
        acc
    }

    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (a, b) = if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cst(b) {
            if k == 0 {
                return a;
            }
            if k == m128(u128::MAX, w) {
                return b;
            }
            let n = *self.node(a);
            match n.op {
                Op::Const => return self.c(n.k | k, w),
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let kh = self.c(k >> lw, hw);
                    let kl = self.c(k, lw);
                    let h = self.or(n.a, kh);
                    let l = self.or(n.b, kl);
                    return self.concat(h, l);
                }
                Op::ZExt => {
                    let lw = self.w(n.a);
                    let kh = self.c(k >> lw, w - lw);
                    let kl = self.c(k, lw);
                    let l = self.or(n.a, kl);
                    return self.concat(kh, l);
                }
                _ => {}
            }
            if self.push_ite(a) {
                return self.map_ite(a, &mut |s, x| s.or(x, b));
            }
        } else {
            if a == b {
                return a;
            }
            if w == 1 {
                if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) {
                    return self.c(1, 1);
                }
                // canonical form: !( !a & !b )
                let x = self.not(a);
                let y = self.not(b);
                let r = self.and(x, y);
                return self.not_raw(r);
            }
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        self.mk2(Op::Or, w, a, b)
    }
    fn not_raw(&mut self, a: Ex) -> Ex {
        let n = *self.node(a);
        match n.op {
            Op::Const => self.c(!n.k, n.w as u32),
            Op::Not => n.a,
            _ => self.mk1(Op::Not, n.w as u32, a),
        }
    }
    pub fn xor(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (a, b) = if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cst(b) {
            if k == 0 {
                return a;
            }
            if let Some(k2) = self.cst(a) {
                return self.c(k ^ k2, w);
            }
            if k == m128(u128::MAX, w) {
                return self.not(a);
            }
            let n = *self.node(a);
            match n.op {
                Op::Xor => {
                    if let Some(k2) = self.cst(n.b) {
                        let kk = self.c(k ^ k2, w);
                        return self.xor(n.a, kk);
                    }
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let kh = self.c(k >> lw, hw);
                    let kl = self.c(k, lw);
                    let h = self.xor(n.a, kh);
                    let l = self.xor(n.b, kl);
                    return self.concat(h, l);
                }
                Op::ZExt => {
                    let lw = self.w(n.a);
                    let kh = self.c(k >> lw, w - lw);
                    let kl = self.c(k, lw);
                    let l = self.xor(n.a, kl);
                    return self.concat(kh, l);
                }
                _ => {}
            }
            if self.push_ite(a) {
                return self.map_ite(a, &mut |s, x| s.xor(x, b));
            }
        } else {
            if a == b {
                return self.c(0, w);
            }
            if w == 1 {
                if let Some(x) = self.not_of(a) {
                    let r = self.xor(x, b);
                    return self.not(r);
                }
                if let Some(y) = self.not_of(b) {
                    let r = self.xor(a, y);
                    return self.not(r);
                }
            }
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        self.mk2(Op::Xor, w, a, b)
    }

    pub fn add(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cst(b) {
            if k == 0 {
                return a;
            }
            let n = *self.node(a);
            match n.op {
                Op::Const => return self.c(n.k.wrapping_add(k), w),
                Op::Add => {
                    if let Some(k2) = self.cst(n.b) {
                        let kk = self.c(k.wrapping_add(k2), w);
                        return self.add(n.a, kk);
                    }
                }
                _ => {}
            }
            if self.push_ite(a) {
                return self.map_ite(a, &mut |s, x| s.add(x, b));
            }
        } else {
            // move constants outwards
            let n = *self.node(a);
            if n.op == Op::Add && self.cst(n.b).is_some() {
                let x = self.add(n.a, b);
                return self.add(x, n.b);
            }
            let n = *self.node(b);
            if n.op == Op::Add && self.cst(n.b).is_some() {
                let x = self.add(a, n.a);
                return self.add(x, n.b);
            }
            // x + (y - x) = y
            for (p, q) in [(a, b), (b, a)] {
                let n = *self.node(q);
                if n.op == Op::Sub && n.b == p {
                    return n.a;
                }
            }
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        self.mk2(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(k) = self.cst(b) {
            let kk = self.c(k.wrapping_neg(), w);
            return self.add(a, kk);
        }
        let na = *self.node(a);
        let nb = *self.node(b);
        if nb.op == Op::Add && self.cst(nb.b).is_some() {
            // a - (x + k) = (a - x) - k
            let x = self.sub(a, nb.a);
            return self.sub(x, nb.b);
        }
        if na.op == Op::Add {
            if self.cst(na.b).is_some() {
                let x = self.sub(na.a, b);
                return self.add(x, na.b);
            }
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if na.op == Op::Const && self.push_ite(b) {
            return self.map_ite(b, &mut |s, x| s.sub(a, x));
        }
        self.mk2(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cst(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if let Some(x) = self.cst(a) {
                return self.c(x.wrapping_mul(k), w);
            }
            if k.is_power_of_two() {
                let s = self.c(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            if self.push_ite(a) {
                return self.map_ite(a, &mut |s, x| s.mul(x, b));
            }
        }
        self.mk2(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cst(b) {
            if k == 1 {
                return a;
            }
            if k != 0 {
                if let Some(x) = self.cst(a) {
                    return self.c(x / k, w);
                }
                if k.is_power_of_two() {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.lshr(a, s);
                }
                let n = *self.node(a);
                if n.op == Op::ZExt {
                    let iw = self.w(n.a);
                    if k >> iw != 0 {
                        return self.c(0, w);
                    }
                    let kk = self.c(k, iw);
                    let x = self.udiv(n.a, kk);
                    return self.zext(x, w);
                }
                if n.op == Op::UDiv {
                    if let Some(k2) = self.cst(n.b) {
                        if let Some(p) = k.checked_mul(k2) {
                            if m128(p, w) == p {
                                let kk = self.c(p, w);
                                return self.udiv(n.a, kk);
                            }
                        }
                    }
                }
                if self.push_ite(a) {
                    return self.map_ite(a, &mut |s, x| s.udiv(x, b));
                }
            }
        }
        self.mk2(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cst(b) {
            if k != 0 {
                if let Some(x) = self.cst(a) {
                    return self.c(x % k, w);
                }
                if k.is_power_of_two() {
                    let m = self.c(k - 1, w);
                    return self.and(a, m);
                }
                let n = *self.node(a);
                if n.op == Op::ZExt {
                    let iw = self.w(n.a);
                    if k >> iw != 0 {
                        return a;
                    }
                    let kk = self.c(k, iw);
                    let x = self.urem(n.a, kk);
                    return self.zext(x, w);
                }
                if self.push_ite(a) {
                    return self.map_ite(a, &mut |s, x| s.urem(x, b));
                }
            }
        }
        self.mk2(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        self.generic2(Op::SDiv, a, b)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        self.generic2(Op::SRem, a, b)
    }
    fn generic2(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(evop(op, w, w, x, y, 0), w);
        }
        if self.cst(b).is_some() && self.push_ite(a) {
            return self.map_ite(a, &mut |s, x| s.generic2(op, x, b));
        }
        if self.cst(a).is_some() && self.push_ite(b) {
            return self.map_ite(b, &mut |s, x| s.generic2(op, a, x));
        }
        self.mk2(op, w, a, b)
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cst(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, 0, w - k);
            let z = self.c(0, k);
            return self.concat(x, z);
        }
        self.generic2(Op::Shl, a, b)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cst(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.generic2(Op::LShr, a, b)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cst(b) {
            let k = k.min(w as u128 - 1) as u32;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.generic2(Op::AShr, a, b)
    }

    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if w == aw {
            return a;
        }
        let n = *self.node(a);
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Ite => {
                let simple = |s: &Self, e: Ex| !matches!(s.node(e).op, Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem);
                if simple(self, n.b) && simple(self, n.c) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let cheap = |s: &Self, e: Ex| matches!(s.node(e).op, Op::ZExt | Op::SExt | Op::Const | Op::Concat);
                if cheap(self, n.a) && cheap(self, n.b) {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return match n.op {
                        Op::Add => self.add(x, y),
                        Op::Sub => self.sub(x, y),
                        _ => self.mul(x, y),
                    };
                }
            }
            _ => {}
        }
        self.raw(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        debug_assert!(w > aw);
        let n = *self.node(a);
        match n.op {
            Op::Const => return self.c(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if self.push_ite(a) {
            return self.map_ite(a, &mut |s, x| s.zext(x, w));
        }
        self.mk1(Op::ZExt, w, a)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        let n = *self.node(a);
        match n.op {
            Op::Const => return self.c(s128(n.k, aw) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if self.push_ite(a) {
            return self.map_ite(a, &mut |s, x| s.sext(x, w));
        }
        self.mk1(Op::SExt, w, a)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let w = self.w(h) + self.w(l);
        debug_assert!(w <= 128);
        let nh = *self.node(h);
        let nl = *self.node(l);
        if nh.op == Op::Const {
            if nl.op == Op::Const {
                let lw = self.w(l);
                return self.c(nh.k << lw | nl.k, w);
            }
            if nh.k == 0 {
                return self.zext(l, w);
            }
        }
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nl.a == nh.a && nl.b + nl.w as u32 == nh.b {
                return self.extract(nh.a, nl.b, w);
            }
            // extract above its own low part
            if nh.b == nl.w as u32 && nh.a == l {
                // not generally equal; fallthrough
            }
            // Extract(x, k, ..) ++ (x' == low bits simplified)
            let low = self.extract(nh.a, 0, nh.b.max(1));
            if nh.b > 0 && low == l {
                return self.extract(nh.a, 0, w);
            }
        }
        if nl.op == Op::Concat {
            // try to merge h with the top of l
            let nt = *self.node(nl.a);
            if nh.op == Op::Extract && nt.op == Op::Extract && nt.a == nh.a && nt.b + nt.w as u32 == nh.b {
                let m = self.extract(nh.a, nt.b, nh.w as u32 + nt.w as u32);
                return self.concat(m, nl.b);
            }
            if nh.op == Op::Const && nt.op == Op::Const {
                let m = self.concat(h, nl.a);
                return self.concat(m, nl.b);
            }
        }
        if nh.op == Op::Concat {
            // right-nest
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        self.mk2(Op::Concat, w, h, l)
    }

    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.cst(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = *self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let na = *self.node(a);
        let a = if na.op == Op::Ite && na.a == c { na.b } else { a };
        let nb = *self.node(b);
        let b = if nb.op == Op::Ite && nb.a == c { nb.c } else { b };
        if a == b {
            return a;
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        let nb = *self.node(b);
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        self.raw(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }

    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.c(1, 1);
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b), "eq widths {} {}", w, self.w(b));
        let (a, b) = if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cst(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            let n = *self.node(a);
            match n.op {
                Op::Const => return self.c((n.k == k) as u128, 1),
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k >> iw != 0 {
                        return self.c(0, 1);
                    }
                    let kk = self.c(k, iw);
                    return self.eq(n.a, kk);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if m128(s128(m128(k, iw), iw) as u128, w) != k {
                        return self.c(0, 1);
                    }
                    let kk = self.c(k, iw);
                    return self.eq(n.a, kk);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let kh = self.c(k >> lw, hw);
                    let kl = self.c(k, lw);
                    let h = self.eq(n.a, kh);
                    let l = self.eq(n.b, kl);
                    return self.and(h, l);
                }
                Op::Ite => {
                    let mut bud = 600;
                    let l = self.cst(n.b).is_some();
                    let r = self.cst(n.c).is_some();
                    if l || r || self.const_ite(a, &mut bud) {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.cst(n.b) {
                        let kk = self.c(k.wrapping_sub(k2), w);
                        return self.eq(n.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.cst(n.b) {
                        let kk = self.c(k ^ k2, w);
                        return self.eq(n.a, kk);
                    }
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Sub => {
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                    if let Some(k2) = self.cst(n.a) {
                        let kk = self.c(k2.wrapping_sub(k), w);
                        return self.eq(n.b, kk);
                    }
                }
                Op::Not => {
                    let kk = self.c(!k, w);
                    return self.eq(n.a, kk);
                }
                Op::Or => {
                    if k == 0 {
                        let x = self.eq(n.a, b);
                        let y = self.eq(n.b, b);
                        return self.and(x, y);
                    }
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            let na = *self.node(a);
            let nb = *self.node(b);
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if (na.op == Op::ZExt || na.op == Op::SExt) && na.op == nb.op && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
            // common addends
            if na.op == Op::Add && self.cst(na.b).is_some() {
                if nb.op == Op::Add && self.cst(nb.b).is_some() {
                    let k = self.cst(nb.b).unwrap().wrapping_sub(self.cst(na.b).unwrap());
                    let kk = self.c(k, w);
                    let y = self.add(nb.a, kk);
                    return self.eq(na.a, y);
                }
                if na.a == b {
                    return self.c(0, 1);
                }
            }
            if nb.op == Op::Add && nb.a == a && self.cst(nb.b).is_some() {
                return self.c(0, 1);
            }
            if na.op == Op::Mul && nb.op == Op::Mul && na.b == nb.b {
                if let Some(c) = self.cst(na.b) {
                    let m = self.umax(na.a).max(self.umax(nb.a));
                    if c > 0 && m.checked_mul(c).map_or(false, |p| m128(p, w) == p) {
                        return self.eq(na.a, nb.a);
                    }
                }
            }
        }
        self.mk2(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex {
        let x = self.eq(a, b);
        self.not(x)
    }

    /// cheap unsigned upper bound
    pub fn umax(&self, e: Ex) -> u128 {
        self.umax_d(e, 8)
    }
    fn umax_d(&self, e: Ex, d: u32) -> u128 {
        let n = self.node(e);
        let full = m128(u128::MAX, n.w as u32);
        if d == 0 && n.op != Op::Const {
            return full;
        }
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax_d(n.a, d - 1),
            Op::And => self.umax_d(n.a, d - 1).min(self.umax_d(n.b, d - 1)),
            Op::URem => {
                if let Some(k) = self.cst(n.b) {
                    if k > 0 {
                        return (k - 1).min(self.umax_d(n.a, d - 1));
                    }
                }
                full
            }
            Op::UDiv => {
                if let Some(k) = self.cst(n.b) {
                    if k > 0 {
                        return self.umax_d(n.a, d - 1) / k;
                    }
                }
                full
            }
            Op::Ite => self.umax_d(n.b, d - 1).max(self.umax_d(n.c, d - 1)),
            Op::Concat => (self.umax_d(n.a, d - 1) << self.w(n.b)) | self.umax_d(n.b, d - 1),
            Op::Add => {
                let s = self.umax_d(n.a, d - 1).checked_add(self.umax_d(n.b, d - 1));
                match s {
                    Some(s) if s <= full => s,
                    _ => full,
                }
            }
            Op::Mul => match self.umax_d(n.a, d - 1).checked_mul(self.umax_d(n.b, d - 1)) {
                Some(s) if s <= full => s,
                _ => full,
            },
            _ => full,
        }
    }

    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if a == b {
            return self.c(0, 1);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        let ka = self.cst(a);
        let kb = self.cst(b);
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c((x < y) as u128, 1);
        }
        if let Some(k) = kb {
            if k == 0 {
                return self.c(0, 1);
            }
            if k == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if k == m128(u128::MAX, w) {
                return self.ne(a, b);
            }
            if self.umax(a) < k {
                return self.c(1, 1);
            }
            let n = *self.node(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k >> iw != 0 {
                        return self.c(1, 1);
                    }
                    let kk = self.c(k, iw);
                    return self.ult(n.a, kk);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    if m128(k, lw) == 0 {
                        let kk = self.c(k >> lw, hw);
                        return self.ult(n.a, kk);
                    }
                }
                Op::Ite => {
                    if self.push_ite(a) || self.cst(n.b).is_some() || self.cst(n.c).is_some() {
                        let x = self.ult(n.b, b);
                        let y = self.ult(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Mul => {
                    // x * c < k  <=>  x < ceil(k / c), when the product fits
                    if let Some(c) = self.cst(n.b) {
                        if c > 0 && self.umax(n.a).checked_mul(c).map_or(false, |p| m128(p, w) == p) {
                            let kk = self.c((k - 1) / c + 1, w);
                            return self.ult(n.a, kk);
                        }
                    }
                }
                Op::Add => {
                    // x + c < k  <=>  x < k - c, when the sum fits
                    if let Some(c) = self.cst(n.b) {
                        if self.umax(n.a).checked_add(c).map_or(false, |p| m128(p, w) == p) {
                            if k <= c {
                                return self.c(0, 1);
                            }
                            let kk = self.c(k - c, w);
                            return self.ult(n.a, kk);
                        }
                    }
                }
                Op::UDiv => {
                    // x / d < k  <=>  x < d * k
                    if let Some(d) = self.cst(n.b) {
                        if d > 0 {
                            match d.checked_mul(k) {
                                Some(p) if m128(p, w) == p => {
                                    let kk = self.c(p, w);
                                    return self.ult(n.a, kk);
                                }
                                _ => return self.c(1, 1),
                            }
                        }
                    }
                }
                _ => {}
            }
        } else if let Some(k) = ka {
            if k == m128(u128::MAX, w) {
                return self.c(0, 1);
            }
            // k < b  <=>  !(b < k+1)
            let kk = self.c(k + 1, w);
            let r = self.ult(b, kk);
            return self.not(r);
        } else {
            let na = *self.node(a);
            let nb = *self.node(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
            // the same constant multiplied or added on both sides, without overflow
            if na.op == nb.op && na.b == nb.b && (na.op == Op::Mul || na.op == Op::Add) {
                if let Some(c) = self.cst(na.b) {
                    let m = self.umax(na.a).max(self.umax(nb.a));
                    let top = if na.op == Op::Mul { m.checked_mul(c) } else { m.checked_add(c) };
                    if (c > 0 || na.op == Op::Add) && top.map_or(false, |p| m128(p, w) == p) {
                        return self.ult(na.a, nb.a);
                    }
                }
            }
        }
        self.mk2(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.c(0, 1);
        }
        if w == 1 {
            let n = self.not(b);
            return self.and(a, n);
        }
        let ka = self.cst(a);
        let kb = self.cst(b);
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c((s128(x, w) < s128(y, w)) as u128, 1);
        }
        let na = *self.node(a);
        let nb = *self.node(b);
        let half = 1u128 << (w - 1);
        let nonneg = |s: &Self, e: Ex| s.umax(e) < half;
        if nonneg(self, a) && nonneg(self, b) {
            return self.ult(a, b);
        }
        if let Some(k) = kb {
            if nonneg(self, a) && s128(k, w) <= 0 {
                return self.c(0, 1);
            }
            if k == 0 {
                return self.extract(a, w - 1, 1);
            }
            if na.op == Op::SExt {
                let iw = self.w(na.a);
                let sk = s128(k, w);
                let mn = -(1i128 << (iw - 1));
                let mx = (1i128 << (iw - 1)) - 1;
                if sk <= mn {
                    return self.c(0, 1);
                }
                if sk > mx {
                    return self.c(1, 1);
                }
                let kk = self.c(k, iw);
                return self.slt(na.a, kk);
            }
            if na.op == Op::Ite && (self.push_ite(a) || self.cst(na.b).is_some() || self.cst(na.c).is_some()) {
                let x = self.slt(na.b, b);
                let y = self.slt(na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        if let Some(k) = ka {
            if nonneg(self, b) && s128(k, w) < 0 {
                return self.c(1, 1);
            }
            if k == m128(half.wrapping_sub(1), w) {
                return self.c(0, 1);
            }
            // k < b <=> !(b < k+1)
            let kk = self.c(k.wrapping_add(1), w);
            let r = self.slt(b, kk);
            return self.not(r);
        }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        self.mk2(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex {
        let r = self.slt(b, a);
        self.not(r)
    }

    pub fn fop2(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> Ex {
        let aw = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(evop(op, w, aw, x, y, 0), w);
        }
        self.mk2(op, w, a, b)
    }
    pub fn fop1(&mut self, op: Op, w: u32, a: Ex) -> Ex {
        let aw = self.w(a);
        if let Some(x) = self.cst(a) {
            return self.c(evop(op, w, aw, x, 0, 0), w);
        }
        self.mk1(op, w, a)
    }

    pub fn new_stamp(&mut self) {
        self.stamp += 1;
        if self.memo.len() < self.n.len() {
            let l = self.n.len() + 1024;
            self.memo.resize(l, (0, 0));
        }
    }
    /// evaluate under a model; call new_stamp() first when the model changed
    pub fn eval(&mut self, e: Ex, m: &Model) -> u128 {
        if self.memo.len() < self.n.len() {
            let l = self.n.len() + 1024;
            self.memo.resize(l, (0, 0));
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: Ex, m: &Model) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *m.get(n.a as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        let (s, v) = self.memo[e as usize];
        if s == self.stamp {
            return v;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Extract => m128(self.ev(n.a, m) >> n.b, w),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => {
                let aw = self.w(n.a);
                m128(s128(self.ev(n.a, m), aw) as u128, w)
            }
            Op::Concat => {
                let bw = self.w(n.b);
                (self.ev(n.a, m) << bw) | self.ev(n.b, m)
            }
            Op::Ite => {
                if self.ev(n.a, m) != 0 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Not | Op::FNan | Op::FExt | Op::FTrunc | Op::FToU | Op::FToS | Op::UToF | Op::SToF | Op::FFloor | Op::FCeil | Op::FInt | Op::FRne | Op::FRna | Op::FSqrt => {
                let a = self.ev(n.a, m);
                let aw = self.w(n.a);
                evop(n.op, w, aw, a, 0, 0)
            }
            _ => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                let aw = self.w(n.a);
                evop(n.op, w, aw, a, b, 0)
            }
        };
        self.memo[e as usize] = (self.stamp, r);
        r
    }

    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = self.node(e);
        if depth == 0 {
            return format!("#{}", e);
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => self.vars[n.a as usize].name.clone(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Not => format!("!{}", self.show(n.a, depth - 1)),
            Op::Ite => format!("({}?{}:{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
