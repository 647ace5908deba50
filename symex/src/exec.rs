//! Path-exploring symbolic interpreter over the compiled IR.
use crate::expr::*;
use crate::ext::Vfs;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Ex),
    A(Rc<[V]>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub dst: u32,
    pub sp: usize,
}

#[derive(Clone)]
pub enum Obs {
    Val(String, V),
    Bytes(String, Vec<V>),
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub inputs: Rc<Vec<(String, Ex)>>,
    pub obs: Rc<Vec<Obs>>,
    pub covers: Rc<Vec<String>>,
    pub vfs: Rc<Vfs>,
    pub steps: u64,
    pub forks: u32,
    pub allow: u64,
    pub known: Vec<(Ex, bool)>,
    pub errno: u64,
    pub pthread_keys: Rc<Vec<V>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Ok,
    Panic,
    Exit,
    Exit0,
    Abort,
    Huge,
    Fail,
    Mem,
    Assume,
    Steps,
    Time,
    Unsupported,
    Unknown,
}
impl Kind {
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Ok => "ok",
            Kind::Panic => "panic",
            Kind::Exit => "exit",
            Kind::Exit0 => "exit0",
            Kind::Abort => "abort",
            Kind::Huge => "huge-alloc",
            Kind::Fail => "fail",
            Kind::Mem => "memory",
            Kind::Assume => "assume",
            Kind::Steps => "step-limit",
            Kind::Time => "time-limit",
            Kind::Unsupported => "unsupported",
            Kind::Unknown => "solver-unknown",
        }
    }
}

#[derive(Debug, Clone)]
pub struct End {
    pub kind: Kind,
    pub msg: String,
}
pub type R<T> = Result<T, End>;

pub fn end<T>(kind: Kind, msg: impl Into<String>) -> R<T> {
    Err(End { kind, msg: msg.into() })
}
impl From<Unknown> for End {
    fn from(_: Unknown) -> End {
        End { kind: Kind::Unknown, msg: "solver budget exhausted".into() }
    }
}

#[derive(Clone)]
pub struct PathRec {
    pub outcome: String,
    pub inputs: Vec<(String, u64)>,
    pub obs: Vec<String>,
    pub covers: Vec<String>,
}

#[derive(Default)]
pub struct Results {
    pub ends: BTreeMap<String, u64>,
    pub violations: Vec<(String, PathRec)>,
    pub vio_seen: HashMap<String, u32>,
    pub problems: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<PathRec>,
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub obligations: u64,
    pub obl_z3: u64,
    pub confirmed: u64,
    pub max_forks: u32,
    pub leftover: u64,
}

pub struct Exec {
    pub p: Prog,
    pub s: Solver,
    pub work: VecDeque<State>,
    pub r: Results,
    pub ginit: HashMap<GlobId, Rc<Data>>,
    consts: HashMap<(FuncId, u32), V>,
    pub step_limit: u64,
    pub deadline: std::time::Instant,
    pub mem_limit: u64,
    pub sample_mod: u64,
    pub max_samples: usize,
    pub trace: bool,
    pub rng: u64,
    pub confirm_paths: bool,
    pub hot: Option<HashMap<String, u64>>,
}

pub fn norm(e: Ex, w: u32) -> V {
    if w <= 64 {
        if let Some(k) = ar().cst(e) {
            return V::C(k as u64);
        }
    }
    V::E(e)
}
pub fn ex(v: &V, w: u32) -> Ex {
    match v {
        V::C(k) => ar().c(*k as u128, w),
        V::E(e) => {
            debug_assert!(ar().w(*e) == w, "width {} expected {}", ar().w(*e), w);
            *e
        }
        V::A(_) => panic!("aggregate used as scalar"),
    }
}

impl Exec {
    pub fn new(p: Prog) -> Exec {
        Exec {
            p,
            s: Solver::new(),
            work: VecDeque::new(),
            r: Results::default(),
            ginit: HashMap::new(),
            consts: HashMap::new(),
            step_limit: 30_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(86400),
            mem_limit: 1 << 20,
            sample_mod: 1,
            max_samples: 24,
            trace: std::env::var("SYMEX_TRACE").is_ok(),
            rng: 0x9E3779B97F4A7C15,
            confirm_paths: true,
            hot: if std::env::var("SYMEX_HOT").is_ok() { Some(HashMap::new()) } else { None },
        }
    }

    pub fn initial(&mut self, f: FuncId) -> State {
        let code = self.p.compile(f);
        self.p.funcs[f as usize].called += 1;
        let cur = Frame { block: 0, ip: 0, regs: vec![V::C(0); code.nregs as usize], dst: NODST, sp: 0, f: code };
        State {
            cur,
            stack: vec![],
            mem: Mem::new(),
            pc: Pc::new(),
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            covers: Rc::new(vec![]),
            vfs: Rc::new(Vfs::new()),
            steps: 0,
            forks: 0,
            allow: 0,
            known: vec![],
            errno: 0,
            pthread_keys: Rc::new(vec![]),
        }
    }

    // ---------- values ----------
    fn kval(&mut self, k: &K, ty: TyId) -> V {
        let n = self.p.types.nfields(ty);
        match k {
            K::C(v) => {
                match self.p.types.get(ty).clone() {
                    Ty::Struct(f, _) => {
                        let z: Vec<V> = f.iter().map(|t| self.kval(&K::C(0), *t)).collect();
                        V::A(z.into())
                    }
                    Ty::Array(_, e) | Ty::Vector(_, e) => {
                        let z = self.kval(&K::C(0), e);
                        V::A(vec![z; n].into())
                    }
                    _ => {
                        let w = self.p.types.bits(ty);
                        if w > 64 {
                            V::E(ar().c(*v as u128, w))
                        } else {
                            V::C(*v)
                        }
                    }
                }
            }
            K::W(v) => {
                let w = self.p.types.bits(ty);
                V::E(ar().c(*v, w))
            }
            K::A(a) => {
                let a = a.clone();
                let v: Vec<V> = a
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let t = self.elem_ty(ty, i);
                        self.kval(x, t)
                    })
                    .collect();
                V::A(v.into())
            }
        }
    }
    pub fn elem_ty(&self, ty: TyId, i: usize) -> TyId {
        match self.p.types.get(ty) {
            Ty::Struct(f, _) => f[i],
            Ty::Array(_, e) | Ty::Vector(_, e) => *e,
            _ => panic!("elem_ty"),
        }
    }
    #[inline]
    pub fn op(&mut self, st: &State, o: O, ty: TyId) -> V {
        match o {
            O::R(r) => st.cur.regs[r as usize].clone(),
            O::C(k) => {
                let w = self.p.types.bits(ty);
                if w > 64 {
                    V::E(ar().c(k as u128, w))
                } else {
                    V::C(k)
                }
            }
            O::K(i) => {
                let key = (st.cur.f.id, i);
                if let Some(v) = self.consts.get(&key) {
                    return v.clone();
                }
                let f = st.cur.f.clone();
                let (k, t) = &f.consts[i as usize];
                let v = self.kval(k, *t);
                self.consts.insert(key, v.clone());
                v
            }
        }
    }
    /// scalar operand of at most 64 bits (type not needed)
    #[inline]
    fn op64(&mut self, st: &State, o: O) -> V {
        match o {
            O::R(r) => st.cur.regs[r as usize].clone(),
            O::C(k) => V::C(k),
            O::K(_) => self.op(st, o, 0),
        }
    }

    // ---------- forking ----------
    pub fn push_fork(&mut self, st: State) {
        self.r.forks += 1;
        self.work.push_back(st);
    }
    /// decide a condition, forking this state when both sides are possible; the instruction is re-executed in the fork
    pub fn branch(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(k) = ar().cst(c) {
            return Ok(k != 0);
        }
        for (e, b) in &st.known {
            if *e == c {
                return Ok(*b);
            }
        }
        let v = self.s.eval(&st.pc, c) != 0;
        let (mine, other) = {
            let n = ar().not(c);
            if v {
                (c, n)
            } else {
                (n, c)
            }
        };
        let om = self.s.sat(&st.pc, other)?;
        if let Some(m) = om {
            let mut o = st.clone();
            o.forks += 1;
            self.s.add(&mut o.pc, other, m);
            o.known.push((c, !v));
            self.push_fork(o);
            st.forks += 1;
            let m = st.pc.model.clone();
            self.s.add(&mut st.pc, mine, m);
        }
        st.known.push((c, v));
        Ok(v)
    }
    /// pick a value for `e`, forking the remaining values off
    pub fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::E(e) => *e,
            V::A(_) => panic!("conc of aggregate"),
        };
        if let Some(k) = ar().cst(e) {
            return Ok(k as u64);
        }
        let k = self.s.eval(&st.pc, e);
        let kk = ar().c(k, w);
        let eq = ar().eq(e, kk);
        if ar().cst(eq).is_some() {
            return Ok(k as u64);
        }
        for (x, b) in &st.known {
            if *x == eq && *b {
                return Ok(k as u64);
            }
        }
        let ne = ar().not(eq);
        if let Some(m) = self.s.sat(&st.pc, ne)? {
            let mut o = st.clone();
            o.forks += 1;
            self.s.add(&mut o.pc, ne, m);
            self.push_fork(o);
            st.forks += 1;
            let m = st.pc.model.clone();
            self.s.add(&mut st.pc, eq, m);
        }
        st.known.push((eq, true));
        Ok(k as u64)
    }

    // ---------- memory ----------
    fn gdata(&mut self, g: GlobId) -> Rc<Data> {
        if let Some(d) = self.ginit.get(&g) {
            return d.clone();
        }
        let b = self.p.glob_init(g);
        let d = Rc::new(Data { b, s: None });
        self.ginit.insert(g, d.clone());
        d
    }
    pub fn bounds(&self, st: &State, a: u64) -> Option<(u64, u64)> {
        if let Some(l) = st.mem.locate(a) {
            let o = st.mem.obj(l);
            return Some((o.base, o.size));
        }
        if let Some(g) = self.p.glob_at(a) {
            let d = &self.p.globs[g as usize];
            return Some((d.addr, d.size));
        }
        None
    }
    pub fn rdata(&mut self, st: &State, a: u64, n: usize) -> R<(Rc<Data>, usize)> {
        if let Some(l) = st.mem.locate(a) {
            let o = st.mem.obj(l);
            let off = a - o.base;
            if off + n as u64 <= o.size {
                return Ok((o.data.clone(), off as usize));
            }
        } else if let Some(g) = self.p.glob_at(a) {
            let d = &self.p.globs[g as usize];
            let off = a - d.addr;
            if off + n as u64 <= d.size {
                return Ok((self.gdata(g), off as usize));
            }
        }
        end(Kind::Mem, format!("invalid read of {} bytes at {:#x} in {}", n, a, self.tr(st)))
    }
    pub fn wdata<'a>(&mut self, st: &'a mut State, a: u64, n: usize) -> R<(&'a mut Data, usize)> {
        let mut loc = st.mem.locate(a);
        if loc.is_none() {
            if let Some(g) = self.p.glob_at(a) {
                let data = self.gdata(g);
                let d = &self.p.globs[g as usize];
                if !d.konst {
                    loc = Some(st.mem.add_glob(Obj { base: d.addr, size: d.size, data }));
                }
            }
        }
        if let Some(l) = loc {
            let o = st.mem.obj(l);
            let off = a - o.base;
            if off + n as u64 <= o.size {
                let o = st.mem.obj_mut(l);
                return Ok((Rc::make_mut(&mut o.data), off as usize));
            }
        }
        end(Kind::Mem, format!("invalid write of {} bytes at {:#x} in {}", n, a, self.tr(st)))
    }
    pub fn tr(&self, st: &State) -> String {
        let mut s = st.cur.f.name.clone();
        for f in st.stack.iter().rev().take(12) {
            s.push_str(" < ");
            s.push_str(&f.f.name);
        }
        s
    }
    fn scalar_at(d: &Data, off: usize, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        if !d.has_sym(off, n) {
            if w <= 64 {
                let mut v = 0u64;
                for i in (0..n).rev() {
                    v = v << 8 | d.b[off + i] as u64;
                }
                return V::C(mask(v, w));
            }
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | d.b[off + i] as u128;
            }
            return V::E(ar().c(v, w));
        }
        let mut key = [u32::MAX; 8];
        if n <= 8 {
            for i in 0..n {
                key[i] = d.byte(off + i);
            }
        }
        let known = if n > 1 && n <= 8 { ar().whole.get(&key).copied() } else { None };
        let e = match known {
            Some(e) => e,
            None => {
                let mut e = d.byte(off);
                for i in 1..n {
                    let h = d.byte(off + i);
                    e = ar().concat(h, e);
                }
                e
            }
        };
        let mut e = e;
        if n as u32 * 8 > w {
            e = ar().extract(e, 0, w);
        }
        norm(e, w)
    }
    fn put_scalar(d: &mut Data, off: usize, v: &V, w: u32) {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(k) => {
                let b = k.to_le_bytes();
                if n <= 8 {
                    d.set_conc(off, &b[..n]);
                } else {
                    let b = (*k as u128).to_le_bytes();
                    d.set_conc(off, &b[..n]);
                }
            }
            V::E(e) => {
                if let Some(k) = ar().cst(*e) {
                    let b = k.to_le_bytes();
                    d.set_conc(off, &b[..n]);
                    return;
                }
                let mut e = *e;
                if n as u32 * 8 != w {
                    e = ar().zext(e, n as u32 * 8);
                }
                let mut key = [u32::MAX; 8];
                for i in 0..n {
                    let x = ar().extract(e, 8 * i as u32, 8);
                    d.set_byte(off + i, x);
                    if n <= 8 {
                        key[i] = x;
                    }
                }
                // the bytes of a choice do not put themselves together again
                if n > 1 && n <= 8 && ar().node(e).op == Op::Ite {
                    ar().whole.insert(key, e);
                }
            }
            V::A(_) => panic!("put_scalar"),
        }
    }
    fn load_val(&mut self, d: &Data, off: usize, ty: TyId) -> V {
        match self.p.types.get(ty).clone() {
            Ty::Struct(..) | Ty::Array(..) => {
                let n = self.p.types.nfields(ty);
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (o, t) = self.p.types.field_off(ty, i);
                    v.push(self.load_val(d, off + o as usize, t));
                }
                V::A(v.into())
            }
            Ty::Vector(n, e) => {
                let w = self.p.types.bits(e);
                if w % 8 == 0 {
                    let mut v = Vec::with_capacity(n as usize);
                    for i in 0..n as usize {
                        v.push(Self::scalar_at(d, off + i * (w as usize / 8), w));
                    }
                    V::A(v.into())
                } else {
                    let x = Self::scalar_at(d, off, w * n as u32);
                    self.split_vec(&x, n as usize, w)
                }
            }
            _ => Self::scalar_at(d, off, self.p.types.bits(ty)),
        }
    }
    fn store_val(&mut self, d: &mut Data, off: usize, v: &V, ty: TyId) {
        match self.p.types.get(ty).clone() {
            Ty::Struct(..) | Ty::Array(..) => {
                let n = self.p.types.nfields(ty);
                let V::A(a) = v else { panic!("store_val") };
                for i in 0..n {
                    let (o, t) = self.p.types.field_off(ty, i);
                    self.store_val(d, off + o as usize, &a[i], t);
                }
            }
            Ty::Vector(n, e) => {
                let w = self.p.types.bits(e);
                let V::A(a) = v else { panic!("store_val") };
                if w % 8 == 0 {
                    for i in 0..n as usize {
                        Self::put_scalar(d, off + i * (w as usize / 8), &a[i], w);
                    }
                } else {
                    let x = self.join_vec(a, w);
                    Self::put_scalar(d, off, &x, w * n as u32);
                }
            }
            _ => Self::put_scalar(d, off, v, self.p.types.bits(ty)),
        }
    }
    fn split_vec(&mut self, x: &V, n: usize, w: u32) -> V {
        let e = ex(x, n as u32 * w);
        let v: Vec<V> = (0..n)
            .map(|i| {
                let e = ar().extract(e, i as u32 * w, w);
                norm(e, w)
            })
            .collect();
        V::A(v.into())
    }
    fn join_vec(&mut self, a: &[V], w: u32) -> V {
        let mut e = ex(&a[0], w);
        for x in &a[1..] {
            let h = ex(x, w);
            e = ar().concat(h, e);
        }
        let tw = ar().w(e);
        norm(e, tw)
    }

    /// possible concrete addresses of a symbolic pointer, if there are few
    fn candidates(&mut self, st: &mut State, e: Ex, limit: usize) -> R<Option<Vec<u64>>> {
        if let Some(v) = self.s.table_values(&st.pc, e) {
            if v.len() <= 256 {
                return Ok(Some(v));
            }
        }
        // enumerate with the solver
        let mut out = vec![];
        let mut pc = st.pc.clone();
        loop {
            let k = self.s.eval(&pc, e);
            out.push(k as u64);
            if out.len() > limit {
                return Ok(None);
            }
            let kk = ar().c(k, 64);
            let ne = ar().ne(e, kk);
            match self.s.sat(&pc, ne)? {
                None => break,
                Some(m) => self.s.add(&mut pc, ne, m),
            }
        }
        Ok(Some(out))
    }

    fn load(&mut self, st: &mut State, p: &V, ty: TyId) -> R<V> {
        let size = self.p.types.size(ty) as usize;
        let n = match self.p.types.get(ty) {
            Ty::Int(b) => ((*b + 7) / 8) as usize,
            _ => size,
        };
        match p {
            V::C(a) => {
                if n == 0 {
                    let d = Data::zeroed(0);
                    return Ok(self.load_val(&d, 0, ty));
                }
                let (d, off) = self.rdata(st, *a, n)?;
                Ok(self.load_val(&d, off, ty))
            }
            V::E(e) => {
                let w = self.p.types.bits(ty);
                if w > 0 && st.allow & crate::ext::FORK == 0 {
                    // keep the pointer symbolic when it stays in one object
                    let a = self.s.eval(&st.pc, *e) as u64;
                    if let Some((base, sz)) = self.bounds(st, a) {
                        if let Some(c) = self.candidates(st, *e, 40)? {
                            if c.iter().all(|x| *x >= base && *x + n as u64 <= base + sz) {
                                let (d, _) = self.rdata(st, base, 0)?;
                                // group equal values
                                let mut groups: Vec<(V, Vec<u64>)> = vec![];
                                let mut idx: HashMap<u64, usize> = HashMap::new();
                                for x in c {
                                    let v = Self::scalar_at(&d, (x - base) as usize, w);
                                    let key = match &v {
                                        V::C(k) => *k,
                                        V::E(e) => (1u64 << 63) ^ (*e as u64),
                                        _ => 0,
                                    };
                                    match idx.get(&key) {
                                        Some(g) => groups[*g].1.push(x),
                                        None => {
                                            idx.insert(key, groups.len());
                                            groups.push((v, vec![x]));
                                        }
                                    }
                                }
                                groups.sort_by_key(|g| g.1.len());
                                let last = groups.pop().unwrap();
                                let mut r = ex(&last.0, w);
                                for (v, addrs) in groups {
                                    let mut c = ar().c(0, 1);
                                    for a in addrs {
                                        let k = ar().c(a as u128, 64);
                                        let q = ar().eq(*e, k);
                                        c = ar().or(c, q);
                                    }
                                    let x = ex(&v, w);
                                    r = ar().ite(c, x, r);
                                }
                                return Ok(norm(r, w));
                            }
                        }
                    }
                }
                let a = self.conc(st, p, 64)?;
                self.load(st, &V::C(a), ty)
            }
            _ => panic!("load"),
        }
    }
    fn store(&mut self, st: &mut State, p: &V, v: &V, ty: TyId) -> R<()> {
        let size = self.p.types.size(ty) as usize;
        let n = match self.p.types.get(ty) {
            Ty::Int(b) => ((*b + 7) / 8) as usize,
            _ => size,
        };
        if n == 0 {
            return Ok(());
        }
        let a = match p {
            V::C(a) => *a,
            V::E(e) => {
                let w = self.p.types.bits(ty);
                if w > 0 && st.allow & crate::ext::FORK == 0 {
                    let a = self.s.eval(&st.pc, *e) as u64;
                    if let Some((base, sz)) = self.bounds(st, a) {
                        if let Some(c) = self.candidates(st, *e, 12)? {
                            if c.len() <= 12 && c.iter().all(|x| *x >= base && *x + n as u64 <= base + sz) {
                                let nv = ex(v, w);
                                for x in c {
                                    let (d, off) = self.wdata(st, x, n)?;
                                    let old = Self::scalar_at(d, off, w);
                                    let oe = ex(&old, w);
                                    let k = ar().c(x as u128, 64);
                                    let q = ar().eq(*e, k);
                                    let r = ar().ite(q, nv, oe);
                                    Self::put_scalar(d, off, &norm(r, w), w);
                                }
                                return Ok(());
                            }
                        }
                    }
                }
                self.conc(st, p, 64)?
            }
            _ => panic!("store"),
        };
        // split borrow: take data out, write, done
        let w = self.p.types.bits(ty);
        if w > 0 {
            let (d, off) = self.wdata(st, a, n)?;
            Self::put_scalar(d, off, v, w);
        } else {
            let mut tmp = Data::zeroed(n);
            {
                // keep padding
                let (d, off) = self.rdata(st, a, n)?;
                tmp.put(0, &d.sub(off, n));
            }
            self.store_val(&mut tmp, 0, v, ty);
            let (d, off) = self.wdata(st, a, n)?;
            d.put(off, &tmp);
        }
        Ok(())
    }

    // byte-level helpers for the environment model
    pub fn read_mem(&mut self, st: &State, a: u64, n: u64) -> R<Data> {
        if n == 0 {
            return Ok(Data::default());
        }
        let (d, o) = self.rdata(st, a, n as usize)?;
        Ok(d.sub(o, n as usize))
    }
    pub fn write_mem(&mut self, st: &mut State, a: u64, x: &Data) -> R<()> {
        if x.b.is_empty() {
            return Ok(());
        }
        let (d, o) = self.wdata(st, a, x.b.len())?;
        d.put(o, x);
        Ok(())
    }
    pub fn write_u(&mut self, st: &mut State, a: u64, v: u64, n: usize) -> R<()> {
        let (d, o) = self.wdata(st, a, n)?;
        d.set_conc(o, &v.to_le_bytes()[..n]);
        Ok(())
    }
    pub fn read_u(&mut self, st: &mut State, a: u64, n: usize) -> R<u64> {
        let (d, o) = self.rdata(st, a, n)?;
        let v = Self::scalar_at(&d, o, n as u32 * 8);
        self.conc(st, &v, n as u32 * 8)
    }
    /// fully concrete bytes
    pub fn read_conc(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        let d = self.read_mem(st, a, n)?;
        let mut out = d.b.clone();
        if d.s.is_some() {
            for i in 0..n as usize {
                let e = d.byte(i);
                out[i] = self.conc(st, &norm(e, 8), 8)? as u8;
            }
        }
        Ok(out)
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let c = self.read_u(st, a + out.len() as u64, 1)?;
            if c == 0 {
                return Ok(out);
            }
            out.push(c as u8);
        }
    }

    // ---------- scalar operations ----------
    fn bin(&mut self, op: B, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let sx = sext(x, w);
                let sy = sext(y, w);
                let r = match op {
                    B::Add => x.wrapping_add(y),
                    B::Sub => x.wrapping_sub(y),
                    B::Mul => x.wrapping_mul(y),
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    B::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    B::AShr => (sx >> y.min(63)) as u64,
                    B::UDiv | B::URem | B::SDiv | B::SRem if y == 0 => return end(Kind::Mem, "division by zero in IR"),
                    B::UDiv => x / y,
                    B::URem => x % y,
                    B::SDiv => sx.wrapping_div(sy) as u64,
                    B::SRem => sx.wrapping_rem(sy) as u64,
                    B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem => {
                        return Ok(V::C(if w == 64 {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            (match op {
                                B::FAdd => p + q,
                                B::FSub => p - q,
                                B::FMul => p * q,
                                B::FDiv => p / q,
                                _ => p % q,
                            })
                            .to_bits()
                        } else {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                B::FAdd => p + q,
                                B::FSub => p - q,
                                B::FMul => p * q,
                                B::FDiv => p / q,
                                _ => p % q,
                            })
                            .to_bits() as u64
                        }))
                    }
                };
                return Ok(V::C(mask(r, w)));
            }
        }
        let x = ex(a, w);
        let y = ex(b, w);
        let r = match op {
            B::Add => ar().add(x, y),
            B::Sub => ar().sub(x, y),
            B::Mul => ar().mul(x, y),
            B::And => ar().and(x, y),
            B::Or => ar().or(x, y),
            B::Xor => ar().xor(x, y),
            B::Shl => ar().shl(x, y),
            B::LShr => ar().lshr(x, y),
            B::AShr => ar().ashr(x, y),
            B::UDiv => ar().udiv(x, y),
            B::URem => ar().urem(x, y),
            B::SDiv => ar().sdiv(x, y),
            B::SRem => ar().srem(x, y),
            B::FAdd => ar().fop2(Op::FAdd, w, x, y),
            B::FSub => ar().fop2(Op::FSub, w, x, y),
            B::FMul => ar().fop2(Op::FMul, w, x, y),
            B::FDiv => ar().fop2(Op::FDiv, w, x, y),
            B::FRem => return end(Kind::Unsupported, "symbolic frem"),
        };
        Ok(norm(r, w))
    }
    fn icmp(&mut self, p: P, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let (sx, sy) = (sext(x, w), sext(y, w));
                return V::C(match p {
                    P::Eq => x == y,
                    P::Ne => x != y,
                    P::Ugt => x > y,
                    P::Uge => x >= y,
                    P::Ult => x < y,
                    P::Ule => x <= y,
                    P::Sgt => sx > sy,
                    P::Sge => sx >= sy,
                    P::Slt => sx < sy,
                    P::Sle => sx <= sy,
                } as u64);
            }
        }
        let x = ex(a, w);
        let y = ex(b, w);
        let m = ar();
        norm(
            match p {
                P::Eq => m.eq(x, y),
                P::Ne => m.ne(x, y),
                P::Ugt => m.ult(y, x),
                P::Uge => m.ule(y, x),
                P::Ult => m.ult(x, y),
                P::Ule => m.ule(x, y),
                P::Sgt => m.slt(y, x),
                P::Sge => m.sle(y, x),
                P::Slt => m.slt(x, y),
                P::Sle => m.sle(x, y),
            },
            1,
        )
    }
    fn fcmp(&mut self, p: u8, w: u32, a: &V, b: &V) -> V {
        let x = ex(a, w);
        let y = ex(b, w);
        let m = ar();
        let nx = m.fop1(Op::FNan, 1, x);
        let ny = m.fop1(Op::FNan, 1, y);
        let uno = m.or(nx, ny);
        let lt = m.fop2(Op::FLt, 1, x, y);
        let gt = m.fop2(Op::FLt, 1, y, x);
        let eq = m.fop2(Op::FEq, 1, x, y);
        let mut r = m.c(0, 1);
        if p & 1 != 0 {
            r = m.or(r, eq);
        }
        if p & 2 != 0 {
            r = m.or(r, gt);
        }
        if p & 4 != 0 {
            r = m.or(r, lt);
        }
        if p & 8 != 0 {
            r = m.or(r, uno);
        }
        norm(r, 1)
    }
    fn cast(&mut self, op: Cast, fw: u32, tw: u32, a: &V) -> R<V> {
        if let V::C(x) = a {
            let x = *x;
            if fw <= 64 && tw <= 64 {
                let r = match op {
                    Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast => mask(x, tw),
                    Cast::SExt => mask(sext(x, fw) as u64, tw),
                    Cast::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                    Cast::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                    Cast::FpToUi | Cast::FpToSi => {
                        let f = if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        mask(if op == Cast::FpToUi { f as u64 } else { f as i64 as u64 }, tw)
                    }
                    Cast::UiToFp => {
                        if tw == 64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    Cast::SiToFp => {
                        let s = sext(x, fw);
                        if tw == 64 {
                            (s as f64).to_bits()
                        } else {
                            (s as f32).to_bits() as u64
                        }
                    }
                };
                return Ok(V::C(r));
            }
        }
        let x = ex(a, fw);
        let m = ar();
        let r = match op {
            Cast::Trunc => m.extract(x, 0, tw),
            Cast::ZExt => m.zext(x, tw),
            Cast::SExt => m.sext(x, tw),
            Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast => {
                if tw > fw {
                    m.zext(x, tw)
                } else if tw < fw {
                    m.extract(x, 0, tw)
                } else {
                    x
                }
            }
            Cast::FpTrunc => m.fop1(Op::FTrunc, tw, x),
            Cast::FpExt => m.fop1(Op::FExt, tw, x),
            Cast::FpToUi => m.fop1(Op::FToU, tw, x),
            Cast::FpToSi => m.fop1(Op::FToS, tw, x),
            Cast::UiToFp => m.fop1(Op::UToF, tw, x),
            Cast::SiToFp => m.fop1(Op::SToF, tw, x),
        };
        Ok(norm(r, tw))
    }
    pub fn ite(&mut self, c: Ex, a: &V, b: &V, ty: TyId) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let v: Vec<V> = (0..x.len())
                    .map(|i| {
                        let t = self.elem_ty(ty, i);
                        self.ite(c, &x[i], &y[i], t)
                    })
                    .collect();
                V::A(v.into())
            }
            _ => {
                let w = self.p.types.bits(ty);
                if let (V::C(x), V::C(y)) = (a, b) {
                    if x == y {
                        return V::C(*x);
                    }
                }
                let x = ex(a, w);
                let y = ex(b, w);
                let r = ar().ite(c, x, y);
                norm(r, w)
            }
        }
    }
    /// (element type, count) when vector
    pub fn vec_of(&self, ty: TyId) -> Option<(u64, TyId)> {
        match self.p.types.get(ty) {
            Ty::Vector(n, e) => Some((*n, *e)),
            _ => None,
        }
    }

    fn goto(&mut self, st: &mut State, t: u32) {
        let f = st.cur.f.clone();
        let b = &f.blocks[t as usize];
        if !b.phis.is_empty() {
            let from = st.cur.block;
            if b.phis.len() == 1 {
                let (d, v) = &b.phis[0];
                let o = v.iter().find(|x| x.0 == from).expect("phi").1;
                let x = self.phi_op(st, o);
                st.cur.regs[*d as usize] = x;
            } else {
                let mut tmp = Vec::with_capacity(b.phis.len());
                for (d, v) in &b.phis {
                    let o = v.iter().find(|x| x.0 == from).expect("phi").1;
                    let x = self.phi_op(st, o);
                    tmp.push((*d, x));
                }
                for (d, x) in tmp {
                    st.cur.regs[d as usize] = x;
                }
            }
        }
        st.cur.block = t;
        st.cur.ip = b.start;
    }
    fn phi_op(&mut self, st: &State, o: O) -> V {
        match o {
            O::R(r) => st.cur.regs[r as usize].clone(),
            O::C(k) => V::C(k),
            O::K(_) => self.op(st, o, 0),
        }
    }

    pub fn enter(&mut self, st: &mut State, f: FuncId, args: Vec<V>, dst: u32) -> R<()> {
        let code = self.p.compile(f);
        self.p.funcs[f as usize].called += 1;
        if st.stack.len() > 4000 {
            return end(Kind::Unsupported, "call depth");
        }
        let mut regs = vec![V::C(0); code.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < code.params.len() {
                regs[code.params[i] as usize] = a;
            }
        }
        let nf = Frame { f: code, block: 0, ip: 0, regs, dst, sp: st.mem.stack.len() };
        st.cur.ip += 1;
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        // entry block is label 0 only if it was the first label seen
        let f = st.cur.f.clone();
        let b0 = f.blocks.iter().position(|b| b.start == 0).unwrap_or(0);
        st.cur.block = b0 as u32;
        Ok(())
    }

    // ---------- main loop ----------
    /// run one path to its end, pushing forks on the work list
    pub fn run_path(&mut self, mut st: State) {
        let r = self.run(&mut st);
        let e = match r {
            Ok(()) => End { kind: Kind::Ok, msg: String::new() },
            Err(e) => e,
        };
        self.finish(st, e);
    }
    fn run(&mut self, st: &mut State) -> R<()> {
        // a forked state starts inside an instruction whose decisions are already recorded
        loop {
            let f = st.cur.f.clone();
            let ins = &f.code[st.cur.ip as usize];
            st.steps += 1;
            if st.steps > self.step_limit {
                return end(Kind::Steps, self.tr(st));
            }
            if st.steps & 0x7fff == 0 && std::time::Instant::now() > self.deadline {
                return end(Kind::Time, String::new());
            }
            if let Some(h) = &mut self.hot {
                if st.steps % 64 == 0 {
                    *h.entry(st.cur.f.name.clone()).or_insert(0) += 1;
                }
            }
            let done = self.step(st, ins)?;
            if !st.known.is_empty() {
                st.known.clear();
            }
            if done {
                return Ok(());
            }
        }
    }

    pub fn set(&mut self, st: &mut State, d: u32, v: V) {
        if d != NODST {
            st.cur.regs[d as usize] = v;
        }
        st.cur.ip += 1;
    }

    fn step(&mut self, st: &mut State, ins: &I) -> R<bool> {
        match ins {
            I::Bin { d, op, ty, w, a, b } => {
                let x = self.op(st, *a, *ty);
                let y = self.op(st, *b, *ty);
                let r = if *w > 0 {
                    if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) && matches!(y, V::E(_)) {
                        // division by zero is UB in the IR; rustc guards it, so check anyway
                        let e = ex(&y, *w);
                        let z = ar().c(0, *w);
                        let q = ar().eq(e, z);
                        if self.branch(st, q)? {
                            return end(Kind::Mem, "division by zero in IR");
                        }
                    }
                    self.bin(*op, *w, &x, &y)?
                } else {
                    let (_, e) = self.vec_of(*ty).unwrap();
                    let ew = self.p.types.bits(e);
                    let (V::A(p), V::A(q)) = (&x, &y) else { panic!("vector bin") };
                    let mut v = Vec::with_capacity(p.len());
                    for i in 0..p.len() {
                        v.push(self.bin(*op, ew, &p[i], &q[i])?);
                    }
                    V::A(v.into())
                };
                self.set(st, *d, r);
            }
            I::Icmp { d, p, ty, w, a, b } => {
                let x = self.op(st, *a, *ty);
                let y = self.op(st, *b, *ty);
                let r = if *w > 0 {
                    self.icmp(*p, *w, &x, &y)
                } else {
                    let (_, e) = self.vec_of(*ty).unwrap();
                    let ew = self.p.types.bits(e);
                    let (V::A(pp), V::A(q)) = (&x, &y) else { panic!("vector icmp") };
                    let v: Vec<V> = (0..pp.len()).map(|i| self.icmp(*p, ew, &pp[i], &q[i])).collect();
                    V::A(v.into())
                };
                self.set(st, *d, r);
            }
            I::Fcmp { d, p, ty, a, b } => {
                let x = self.op(st, *a, *ty);
                let y = self.op(st, *b, *ty);
                let w = self.p.types.bits(*ty);
                if w != 64 && w != 32 {
                    return end(Kind::Unsupported, "fcmp type");
                }
                let r = self.fcmp(*p, w, &x, &y);
                self.set(st, *d, r);
            }
            I::FNeg { d, ty, a } => {
                let w = self.p.types.bits(*ty);
                if w == 0 {
                    return end(Kind::Unsupported, "vector fneg");
                }
                let x = self.op(st, *a, *ty);
                let xe = ex(&x, w);
                let k = ar().c(1u128 << (w - 1), w);
                let r = ar().xor(xe, k);
                self.set(st, *d, norm(r, w));
            }
            I::Cast { d, op, from, to, a } => {
                let x = self.op(st, *a, *from);
                let fv = self.vec_of(*from);
                let tv = self.vec_of(*to);
                let r = match (fv, tv) {
                    (None, None) => {
                        let fw = self.p.types.bits(*from);
                        let tw = self.p.types.bits(*to);
                        self.cast(*op, fw, tw, &x)?
                    }
                    (Some((n, e)), Some((m, g))) if *op != Cast::BitCast || n == m => {
                        let fw = self.p.types.bits(e);
                        let tw = self.p.types.bits(g);
                        let V::A(a) = &x else { panic!() };
                        let mut v = vec![];
                        for y in a.iter() {
                            v.push(self.cast(*op, fw, tw, y)?);
                        }
                        V::A(v.into())
                    }
                    (f, t) => {
                        let flat = match f {
                            Some((n, e)) => {
                                let w = self.p.types.bits(e);
                                if w * n as u32 > 128 {
                                    return end(Kind::Unsupported, "wide bitcast");
                                }
                                let V::A(a) = &x else { panic!() };
                                self.join_vec(a, w)
                            }
                            None => x,
                        };
                        match t {
                            Some((n, e)) => {
                                let w = self.p.types.bits(e);
                                self.split_vec(&flat, n as usize, w)
                            }
                            None => flat,
                        }
                    }
                };
                self.set(st, *d, r);
            }
            I::Select { d, cty, ty, c, a, b } => {
                let cv = self.op(st, *c, *cty);
                let r = match cv {
                    V::C(k) => {
                        if k & 1 != 0 {
                            self.op(st, *a, *ty)
                        } else {
                            self.op(st, *b, *ty)
                        }
                    }
                    V::E(e) => {
                        let x = self.op(st, *a, *ty);
                        let y = self.op(st, *b, *ty);
                        // choosing between pointers: fork rather than create a symbolic pointer
                        if matches!(self.p.types.get(*ty), Ty::Ptr) && !same(&x, &y) {
                            if self.branch(st, e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.ite(e, &x, &y, *ty)
                        }
                    }
                    V::A(cs) => {
                        let x = self.op(st, *a, *ty);
                        let y = self.op(st, *b, *ty);
                        let (V::A(x), V::A(y)) = (&x, &y) else { panic!() };
                        let mut v = vec![];
                        for i in 0..cs.len() {
                            let t = self.elem_ty(*ty, i);
                            let e = ex(&cs[i], 1);
                            v.push(self.ite(e, &x[i], &y[i], t));
                        }
                        V::A(v.into())
                    }
                };
                self.set(st, *d, r);
            }
            I::Alloca { d, size, align, n } => {
                let k = self.op64(st, *n);
                let k = self.conc(st, &k, 64)?;
                let a = st.mem.alloc_stack(size * k, *align);
                self.set(st, *d, V::C(a));
            }
            I::Load { d, ty, p } => {
                let p = self.op64(st, *p);
                let v = self.load(st, &p, *ty)?;
                self.set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let v = self.op(st, *v, *ty);
                let p = self.op64(st, *p);
                self.store(st, &p, &v, *ty)?;
                st.cur.ip += 1;
            }
            I::Gep { d, base, off, idx } => {
                let b = self.op64(st, *base);
                let mut conc = match b {
                    V::C(k) => k.wrapping_add(*off),
                    _ => *off,
                };
                let mut sym: Option<Ex> = match b {
                    V::E(e) => Some(e),
                    _ => None,
                };
                for (o, scale, bits) in idx.iter() {
                    let v = self.op64(st, *o);
                    match v {
                        V::C(k) => conc = conc.wrapping_add((sext(k, *bits) as u64).wrapping_mul(*scale)),
                        V::E(e) => {
                            let m = ar();
                            let e = m.sext(e, 64);
                            let k = m.c(*scale as u128, 64);
                            let e = m.mul(e, k);
                            sym = Some(match sym {
                                None => e,
                                Some(s) => m.add(s, e),
                            });
                        }
                        V::A(_) => return end(Kind::Unsupported, "vector gep"),
                    }
                }
                let r = match sym {
                    None => V::C(conc),
                    Some(e) => {
                        let k = ar().c(conc as u128, 64);
                        let r = ar().add(e, k);
                        norm(r, 64)
                    }
                };
                self.set(st, *d, r);
            }
            I::Br { t } => self.goto(st, *t),
            I::CondBr { c, t, f } => {
                let v = self.op64(st, *c);
                match v {
                    V::C(k) => {
                        let x = if k & 1 != 0 { *t } else { *f };
                        self.goto(st, x);
                    }
                    V::E(e) => {
                        let v = self.s.eval(&st.pc, e) != 0;
                        let n = ar().not(e);
                        let (mine, other) = if v { (e, n) } else { (n, e) };
                        let (tm, to) = if v { (*t, *f) } else { (*f, *t) };
                        if let Some(m) = self.s.sat(&st.pc, other)? {
                            let mut o = st.clone();
                            o.forks += 1;
                            o.known.clear();
                            self.s.add(&mut o.pc, other, m);
                            self.goto(&mut o, to);
                            self.push_fork(o);
                            st.forks += 1;
                            let m = st.pc.model.clone();
                            self.s.add(&mut st.pc, mine, m);
                        }
                        self.goto(st, tm);
                    }
                    _ => panic!("condbr"),
                }
            }
            I::Switch { w, v, def, cases } => {
                let x = self.op64(st, *v);
                match x {
                    V::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, t);
                    }
                    V::E(e) => {
                        // group by target
                        let mut tg: Vec<(u32, Ex)> = vec![];
                        let mut any = ar().c(0, 1);
                        for (k, t) in cases.iter() {
                            let kk = ar().c(*k as u128, *w);
                            let q = ar().eq(e, kk);
                            any = ar().or(any, q);
                            match tg.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1 = ar().or(x.1, q),
                                None => tg.push((*t, q)),
                            }
                        }
                        let de = ar().not(any);
                        match tg.iter_mut().find(|x| x.0 == *def) {
                            Some(x) => x.1 = ar().or(x.1, de),
                            None => tg.push((*def, de)),
                        }
                        let mut mine = None;
                        for (t, c) in &tg {
                            if mine.is_none() && self.s.eval(&st.pc, *c) != 0 {
                                mine = Some((*t, *c));
                                continue;
                            }
                            if let Some(m) = self.s.sat(&st.pc, *c)? {
                                let mut o = st.clone();
                                o.forks += 1;
                                o.known.clear();
                                self.s.add(&mut o.pc, *c, m);
                                self.goto(&mut o, *t);
                                self.push_fork(o);
                                st.forks += 1;
                            }
                        }
                        let (t, c) = mine.expect("switch");
                        let m = st.pc.model.clone();
                        self.s.add(&mut st.pc, c, m);
                        self.goto(st, t);
                    }
                    _ => panic!("switch"),
                }
            }
            I::Ret { v } => {
                let r = match v {
                    None => V::C(0),
                    Some(o) => match o {
                        O::R(r) => st.cur.regs[*r as usize].clone(),
                        O::C(k) => V::C(*k),
                        O::K(_) => self.op(st, *o, 0),
                    },
                };
                st.mem.stack.truncate(st.cur.sp);
                match st.stack.pop() {
                    None => return Ok(true),
                    Some(fr) => {
                        let dst = st.cur.dst;
                        st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        if dst != NODST {
                            st.cur.regs[dst as usize] = r;
                        }
                    }
                }
            }
            I::Unreachable => return end(Kind::Mem, format!("unreachable reached in {}", self.tr(st))),
            I::Call { d, ret, callee, args } => {
                let mut av = Vec::with_capacity(args.len());
                for (o, t) in args.iter() {
                    av.push(self.op(st, *o, *t));
                }
                match callee {
                    Callee::Direct(f) => self.call(st, *f, av, *d, *ret)?,
                    Callee::Indirect(o) => {
                        let p = self.op64(st, *o);
                        let a = self.conc(st, &p, 64)?;
                        match self.p.addr_func(a) {
                            Some(f) => self.call(st, f, av, *d, *ret)?,
                            None => return end(Kind::Mem, format!("call through bad pointer {:#x} in {}", a, self.tr(st))),
                        }
                    }
                    Callee::Intrinsic(n) => {
                        let tys: Vec<TyId> = args.iter().map(|a| a.1).collect();
                        let r = self.intrinsic(st, n, &av, &tys, *ret)?;
                        self.set(st, *d, r);
                    }
                    Callee::Asm(s) => {
                        let r = self.asm(st, s, &av, *ret)?;
                        self.set(st, *d, r);
                    }
                }
            }
            I::Extract { d, a, idx } => {
                let mut v = self.op(st, *a, 0);
                for i in idx.iter() {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        V::C(0) => V::C(0),
                        _ => panic!("extractvalue of {:?}", v),
                    };
                }
                self.set(st, *d, v);
            }
            I::Insert { d, ty, a, v, idx } => {
                let x = self.op(st, *a, *ty);
                let mut t = *ty;
                for i in idx.iter() {
                    t = self.elem_ty(t, *i as usize);
                }
                let v = self.op(st, *v, t);
                fn ins(x: &V, idx: &[u32], v: V) -> V {
                    if idx.is_empty() {
                        return v;
                    }
                    let V::A(a) = x else { panic!("insertvalue") };
                    let mut w: Vec<V> = a.to_vec();
                    w[idx[0] as usize] = ins(&a[idx[0] as usize], &idx[1..], v);
                    V::A(w.into())
                }
                let r = ins(&x, idx, v);
                self.set(st, *d, r);
            }
            I::ExtractEl { d, ty, a, i } => {
                let x = self.op(st, *a, *ty);
                let i = self.op64(st, *i);
                let V::A(x) = &x else { panic!("extractelement") };
                let k = self.conc(st, &i, if let V::E(e) = i { ar().w(e) } else { 64 })?;
                let v = x[k as usize].clone();
                self.set(st, *d, v);
            }
            I::InsertEl { d, ty, a, v, i } => {
                let x = self.op(st, *a, *ty);
                let et = self.elem_ty(*ty, 0);
                let v = self.op(st, *v, et);
                let i = self.op64(st, *i);
                let V::A(x) = &x else { panic!("insertelement") };
                let k = self.conc(st, &i, if let V::E(e) = i { ar().w(e) } else { 64 })?;
                let mut w = x.to_vec();
                w[k as usize] = v;
                self.set(st, *d, V::A(w.into()));
            }
            I::Shuffle { d, ty, a, b, mask } => {
                let x = self.op(st, *a, *ty);
                let y = self.op(st, *b, *ty);
                let (V::A(x), V::A(y)) = (&x, &y) else { panic!("shuffle") };
                let n = x.len();
                let v: Vec<V> = mask
                    .iter()
                    .map(|m| {
                        let m = *m;
                        if m < 0 {
                            x[0].clone()
                        } else if (m as usize) < n {
                            x[m as usize].clone()
                        } else {
                            y[m as usize - n].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(v.into()));
            }
            I::CmpXchg { d, ty, p, c, n } => {
                let p = self.op64(st, *p);
                let w = self.p.types.bits(*ty);
                let old = self.load(st, &p, *ty)?;
                let c = self.op(st, *c, *ty);
                let n = self.op(st, *n, *ty);
                let q = self.icmp(P::Eq, w, &old, &c);
                let q = ex(&q, 1);
                let ok = self.branch(st, q)?;
                if ok {
                    self.store(st, &p, &n, *ty)?;
                }
                self.set(st, *d, V::A(vec![old, V::C(ok as u64)].into()));
            }
            I::AtomicRmw { d, ty, op, p, v } => {
                let p = self.op64(st, *p);
                let w = self.p.types.bits(*ty);
                let old = self.load(st, &p, *ty)?;
                let v = self.op(st, *v, *ty);
                let n = match &**op {
                    "xchg" => v,
                    "add" => self.bin(B::Add, w, &old, &v)?,
                    "sub" => self.bin(B::Sub, w, &old, &v)?,
                    "and" => self.bin(B::And, w, &old, &v)?,
                    "or" => self.bin(B::Or, w, &old, &v)?,
                    "xor" => self.bin(B::Xor, w, &old, &v)?,
                    "umax" | "umin" | "max" | "min" => {
                        let pr = match &**op {
                            "umax" => P::Ugt,
                            "umin" => P::Ult,
                            "max" => P::Sgt,
                            _ => P::Slt,
                        };
                        let c = self.icmp(pr, w, &old, &v);
                        let c = ex(&c, 1);
                        self.ite(c, &old, &v, *ty)
                    }
                    x => return end(Kind::Unsupported, format!("atomicrmw {}", x)),
                };
                self.store(st, &p, &n, *ty)?;
                self.set(st, *d, old);
            }
            I::Copy { d, a } => {
                let v = match a {
                    O::R(r) => st.cur.regs[*r as usize].clone(),
                    _ => self.op(st, *a, 0),
                };
                self.set(st, *d, v);
            }
            I::Nop => st.cur.ip += 1,
            I::Bad(s) => return end(Kind::Unsupported, s.to_string()),
        }
        Ok(false)
    }

    fn asm(&mut self, st: &mut State, s: &str, a: &[V], _ret: TyId) -> R<V> {
        if s.starts_with("div ") {
            // rdx:rax / operand ; args: divisor, lo, hi
            let d = ex(&a[0], 64);
            let lo = ex(&a[1], 64);
            let hi = ex(&a[2], 64);
            let m = ar();
            let n = m.concat(hi, lo);
            let dd = m.zext(d, 128);
            let q = m.udiv(n, dd);
            let r = m.urem(n, dd);
            let q = m.extract(q, 0, 64);
            let r = m.extract(r, 0, 64);
            return Ok(V::A(vec![norm(q, 64), norm(r, 64)].into()));
        }
        if s.contains("cpuid") {
            return Ok(V::A(vec![V::C(0); 4].into()));
        }
        if s.starts_with("/*") {
            return Ok(a[0].clone());
        }
        let _ = st;
        end(Kind::Unsupported, format!("asm {}", s))
    }

    fn map1(&mut self, ty: TyId, a: &V, f: &mut dyn FnMut(&mut Exec, u32, &V) -> R<V>) -> R<V> {
        match self.vec_of(ty) {
            Some((_, e)) => {
                let w = self.p.types.bits(e);
                let V::A(x) = a else { panic!() };
                let mut v = vec![];
                for i in x.iter() {
                    v.push(f(self, w, i)?);
                }
                Ok(V::A(v.into()))
            }
            None => {
                let w = self.p.types.bits(ty);
                f(self, w, a)
            }
        }
    }
    fn map2(&mut self, ty: TyId, a: &V, b: &V, f: &mut dyn FnMut(&mut Exec, u32, &V, &V) -> R<V>) -> R<V> {
        match self.vec_of(ty) {
            Some((_, e)) => {
                let w = self.p.types.bits(e);
                let (V::A(x), V::A(y)) = (a, b) else { panic!() };
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(f(self, w, &x[i], &y[i])?);
                }
                Ok(V::A(v.into()))
            }
            None => {
                let w = self.p.types.bits(ty);
                f(self, w, a, b)
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &'static str, a: &[V], tys: &[TyId], ret: TyId) -> R<V> {
        let body = &n[5..];
        let is = |p: &str| body.starts_with(p);
        if is("memcpy.") || is("memmove.") {
            self.copy(st, &a[0], &a[1], &a[2])?;
            return Ok(V::C(0));
        }
        if is("memset.") {
            self.fill(st, &a[0], &a[1], &a[2])?;
            return Ok(V::C(0));
        }
        if is("umin.") || is("umax.") || is("smin.") || is("smax.") {
            let p = match &body[..4] {
                "umin" => P::Ult,
                "umax" => P::Ugt,
                "smin" => P::Slt,
                _ => P::Sgt,
            };
            return self.map2(tys[0], &a[0], &a[1], &mut |x, w, p1, p2| {
                let c = x.icmp(p, w, p1, p2);
                let c = ex(&c, 1);
                let (l, r) = (ex(p1, w), ex(p2, w));
                let e = ar().ite(c, l, r);
                Ok(norm(e, w))
            });
        }
        if body[1..].starts_with("add.with.overflow") || body[1..].starts_with("sub.with.overflow") || body[1..].starts_with("mul.with.overflow") {
            let w = self.p.types.bits(tys[0]);
            if w == 0 {
                return end(Kind::Unsupported, n);
            }
            let signed = body.as_bytes()[0] == b's';
            let op = match &body[1..4] {
                "add" => B::Add,
                "sub" => B::Sub,
                _ => B::Mul,
            };
            let (v, o) = self.overflow(op, signed, w, &a[0], &a[1])?;
            return Ok(V::A(vec![v, o].into()));
        }
        if is("uadd.sat") || is("usub.sat") || is("sadd.sat") || is("ssub.sat") {
            let signed = body.as_bytes()[0] == b's';
            let op = if &body[1..4] == "add" { B::Add } else { B::Sub };
            return self.map2(tys[0], &a[0], &a[1], &mut |x, w, p, q| {
                let (v, o) = x.overflow(op, signed, w, p, q)?;
                let o = ex(&o, 1);
                let sat = if !signed {
                    ar().c(if op == B::Add { u128::MAX } else { 0 }, w)
                } else {
                    // overflow sign: sign of first operand
                    let pe = ex(p, w);
                    let s = ar().extract(pe, w - 1, 1);
                    let mn = ar().c(1u128 << (w - 1), w);
                    let mx = ar().c((1u128 << (w - 1)) - 1, w);
                    ar().ite(s, mn, mx)
                };
                let ve = ex(&v, w);
                let r = ar().ite(o, sat, ve);
                Ok(norm(r, w))
            });
        }
        if is("fshl.") || is("fshr.") {
            let left = is("fshl.");
            let v2 = (a[0].clone(), a[1].clone(), a[2].clone());
            let w = self.p.types.bits(tys[0]);
            if w == 0 {
                // vector
                let (V::A(x), V::A(y), V::A(z)) = (&v2.0, &v2.1, &v2.2) else { panic!() };
                let (_, e) = self.vec_of(tys[0]).unwrap();
                let ew = self.p.types.bits(e);
                let v: Vec<V> = (0..x.len()).map(|i| fsh(left, ew, &x[i], &y[i], &z[i])).collect();
                return Ok(V::A(v.into()));
            }
            return Ok(fsh(left, w, &v2.0, &v2.1, &v2.2));
        }
        if is("ctlz.") || is("cttz.") {
            let lz = is("ctlz.");
            return self.map1(tys[0], &a[0], &mut |_, w, x| {
                if let V::C(k) = x {
                    let r = if *k == 0 {
                        w as u64
                    } else if lz {
                        (k.leading_zeros() - (64 - w)) as u64
                    } else {
                        k.trailing_zeros() as u64
                    };
                    return Ok(V::C(r));
                }
                let e = ex(x, w);
                if let Some(k) = ar().cst(e) {
                    let r = if k == 0 {
                        w
                    } else if lz {
                        k.leading_zeros() - (128 - w)
                    } else {
                        k.trailing_zeros()
                    };
                    return Ok(norm(ar().c(r as u128, w), w));
                }
                let mut r = ar().c(w as u128, w);
                for i in 0..w {
                    let bit = if lz { i } else { w - 1 - i };
                    let b = ar().extract(e, bit, 1);
                    let cnt = if lz { w - 1 - bit } else { bit };
                    let k = ar().c(cnt as u128, w);
                    r = ar().ite(b, k, r);
                }
                Ok(norm(r, w))
            });
        }
        if is("ctpop.") {
            return self.map1(tys[0], &a[0], &mut |_, w, x| {
                if let V::C(k) = x {
                    return Ok(V::C(k.count_ones() as u64));
                }
                let e = ex(x, w);
                let mut r = ar().c(0, w);
                for i in 0..w {
                    let b = ar().extract(e, i, 1);
                    let b = ar().zext(b, w);
                    r = ar().add(r, b);
                }
                Ok(norm(r, w))
            });
        }
        if is("bswap.") {
            return self.map1(tys[0], &a[0], &mut |_, w, x| {
                let e = ex(x, w);
                let n = w / 8;
                let mut r = ar().extract(e, w - 8, 8);
                for i in 1..n {
                    let b = ar().extract(e, w - 8 - 8 * i, 8);
                    r = ar().concat(b, r);
                }
                Ok(norm(r, w))
            });
        }
        if is("bitreverse.") {
            return self.map1(tys[0], &a[0], &mut |_, w, x| {
                let e = ex(x, w);
                let mut r = ar().extract(e, w - 1, 1);
                for i in 1..w {
                    let b = ar().extract(e, w - 1 - i, 1);
                    r = ar().concat(b, r);
                }
                Ok(norm(r, w))
            });
        }
        if is("abs.") {
            return self.map1(tys[0], &a[0], &mut |_, w, x| {
                let e = ex(x, w);
                let z = ar().c(0, w);
                let n = ar().sub(z, e);
                let s = ar().extract(e, w - 1, 1);
                let r = ar().ite(s, n, e);
                Ok(norm(r, w))
            });
        }
        if is("scmp.") || is("ucmp.") {
            let w = self.p.types.bits(tys[0]);
            let rw = self.p.types.bits(ret);
            if w == 0 {
                return end(Kind::Unsupported, n);
            }
            let p = if is("scmp.") { P::Slt } else { P::Ult };
            let lt = self.icmp(p, w, &a[0], &a[1]);
            let gt = self.icmp(p, w, &a[1], &a[0]);
            let (lt, gt) = (ex(&lt, 1), ex(&gt, 1));
            let m1 = ar().c(u128::MAX, rw);
            let z = ar().c(0, rw);
            let o = ar().c(1, rw);
            let x = ar().ite(gt, o, z);
            let r = ar().ite(lt, m1, x);
            return Ok(norm(r, rw));
        }
        if is("threadlocal.address") || is("launder.invariant") || is("ptrmask") && false {
            return Ok(a[0].clone());
        }
        if is("fabs.") {
            return self.map1(tys[0], &a[0], &mut |_, w, x| {
                let e = ex(x, w);
                let k = ar().c((1u128 << (w - 1)) - 1, w);
                let r = ar().and(e, k);
                Ok(norm(r, w))
            });
        }
        for (n, op) in [("floor.", Op::FFloor), ("ceil.", Op::FCeil), ("trunc.f", Op::FInt), ("rint.", Op::FRne), ("nearbyint.", Op::FRne), ("roundeven.", Op::FRne), ("round.", Op::FRna), ("sqrt.", Op::FSqrt)] {
            if is(n) {
                return self.map1(tys[0], &a[0], &mut |_, w, x| {
                    let e = ex(x, w);
                    let r = ar().fop1(op, w, e);
                    Ok(norm(r, w))
                });
            }
        }
        if is("maxnum.") || is("minnum.") || is("maximumnum.") || is("minimumnum.") {
            // the other operand where one is not a number; of zeros of both signs, the greater (smaller) one
            let w = self.p.types.bits(tys[0]);
            let (x, y) = (ex(&a[0], w), ex(&a[1], w));
            let mx = is("max");
            let m = ar();
            let lt = m.fop2(Op::FLt, 1, x, y);
            let eq = m.fop2(Op::FEq, 1, x, y);
            let xneg = m.extract(x, w - 1, 1);
            let t = m.and(eq, xneg);
            let lt = m.or(lt, t);
            let r = if mx { m.ite(lt, y, x) } else { m.ite(lt, x, y) };
            let xn = m.fop1(Op::FNan, 1, x);
            let yn = m.fop1(Op::FNan, 1, y);
            let r = m.ite(yn, x, r);
            let r = m.ite(xn, y, r);
            return Ok(norm(r, w));
        }
        if is("powi.") {
            if let (V::C(x), V::C(n)) = (&a[0], &a[1]) {
                let n = *n as u32 as i32;
                return Ok(V::C(if self.p.types.bits(tys[0]) == 64 { f64::from_bits(*x).powi(n).to_bits() } else { f32::from_bits(*x as u32).powi(n).to_bits() as u64 }));
            }
        }
        if is("fma.") {
            if let (V::C(x), V::C(y), V::C(z)) = (&a[0], &a[1], &a[2]) {
                return Ok(V::C(if self.p.types.bits(tys[0]) == 64 {
                    f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z)).to_bits()
                } else {
                    f32::from_bits(*x as u32).mul_add(f32::from_bits(*y as u32), f32::from_bits(*z as u32)).to_bits() as u64
                }));
            }
        }
        if is("copysign.") {
            let w = self.p.types.bits(tys[0]);
            let (x, y) = (ex(&a[0], w), ex(&a[1], w));
            let l = ar().extract(x, 0, w - 1);
            let s = ar().extract(y, w - 1, 1);
            let r = ar().concat(s, l);
            return Ok(norm(r, w));
        }
        if is("fptoui.sat") || is("fptosi.sat") {
            let signed = is("fptosi.sat");
            let fw = self.p.types.bits(tys[0]);
            let tw = self.p.types.bits(ret);
            if let V::C(x) = &a[0] {
                let f = if fw == 64 { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 };
                let r = if signed {
                    let mx = if tw == 64 { i64::MAX } else { (1i64 << (tw - 1)) - 1 };
                    let mn = if tw == 64 { i64::MIN } else { -(1i64 << (tw - 1)) };
                    mask((f as i64).clamp(mn, mx) as u64, tw)
                } else {
                    let mx = if tw == 64 { u64::MAX } else { (1u64 << tw) - 1 };
                    (f as u64).min(mx)
                };
                return Ok(V::C(r));
            }
            let x = ex(&a[0], fw);
            let m = ar();
            let fbits = |v: f64| -> u128 {
                if fw == 64 {
                    v.to_bits() as u128
                } else {
                    (v as f32).to_bits() as u128
                }
            };
            let (lo, hi, lov, hiv) = if signed {
                let p = 2f64.powi(tw as i32 - 1);
                (-p, p, 1u128 << (tw - 1), (1u128 << (tw - 1)) - 1)
            } else {
                (0.0, 2f64.powi(tw as i32), 0u128, u128::MAX)
            };
            let lo_e = m.c(fbits(lo), fw);
            let hi_e = m.c(fbits(hi), fw);
            let below = m.fop2(Op::FLe, 1, x, lo_e);
            let above = m.fop2(Op::FLe, 1, hi_e, x);
            let nan = m.fop1(Op::FNan, 1, x);
            let body = m.fop1(if signed { Op::FToS } else { Op::FToU }, tw, x);
            let lov = m.c(lov, tw);
            let hiv = m.c(hiv, tw);
            let z = m.c(0, tw);
            let r = m.ite(above, hiv, body);
            let r = m.ite(below, lov, r);
            let r = m.ite(nan, z, r);
            return Ok(norm(r, tw));
        }
        if is("is.fpclass") {
            let w = self.p.types.bits(tys[0]);
            let V::C(mask) = a[1] else { panic!() };
            let e = ex(&a[0], w);
            let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
            let m = ar();
            let s = m.extract(e, w - 1, 1);
            let ns = m.not(s);
            let ef = m.extract(e, mb, eb);
            let mf = m.extract(e, 0, mb);
            let ones = m.c(u128::MAX, eb);
            let z = m.c(0, eb);
            let mz = m.c(0, mb);
            let e1 = m.eq(ef, ones);
            let e0 = m.eq(ef, z);
            let m0 = m.eq(mf, mz);
            let nm0 = m.not(m0);
            let q = m.extract(e, mb - 1, 1);
            let nq = m.not(q);
            let nan = m.and(e1, nm0);
            let inf = m.and(e1, m0);
            let zero = m.and(e0, m0);
            let sub = m.and(e0, nm0);
            let t = m.or(e1, e0);
            let normal = m.not(t);
            let snan = m.and(nan, nq);
            let qnan = m.and(nan, q);
            let cls = [(snan, None), (qnan, None), (inf, Some(true)), (normal, Some(true)), (sub, Some(true)), (zero, Some(true)), (zero, Some(false)), (sub, Some(false)), (normal, Some(false)), (inf, Some(false))];
            let mut r = m.c(0, 1);
            for (i, (c, neg)) in cls.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    let x = match neg {
                        None => *c,
                        Some(true) => m.and(*c, s),
                        Some(false) => m.and(*c, ns),
                    };
                    r = m.or(r, x);
                }
            }
            return Ok(norm(r, 1));
        }
        if is("load.relative") {
            let w = self.p.types.bits(tys[1]);
            let off = ex(&a[1], w);
            let off = ar().sext(off, 64);
            let b = ex(&a[0], 64);
            let p = ar().add(b, off);
            let t32 = self.p.t_i32;
            let v = self.load(st, &norm(p, 64), t32)?;
            let v = ex(&v, 32);
            let v = ar().sext(v, 64);
            let r = ar().add(b, v);
            return Ok(norm(r, 64));
        }
        if is("vector.reduce.add") || is("vector.reduce.or") || is("vector.reduce.and") || is("vector.reduce.xor") {
            let op = match &body[14..17] {
                "add" => B::Add,
                "and" => B::And,
                "xor" => B::Xor,
                _ => B::Or,
            };
            let (_, e) = self.vec_of(tys[0]).unwrap();
            let w = self.p.types.bits(e);
            let V::A(x) = &a[0] else { panic!() };
            let mut r = x[0].clone();
            for y in &x[1..] {
                r = self.bin(op, w, &r, y)?;
            }
            return Ok(r);
        }
        if is("x86.sse2.pause") || is("donothing") || is("sideeffect") || is("va_") {
            return Ok(V::C(0));
        }
        if is("x86.sse2.psad.bw") {
            let (V::A(x), V::A(y)) = (&a[0], &a[1]) else { panic!() };
            let mut out = vec![];
            for h in 0..x.len() / 8 {
                let mut acc = ar().c(0, 64);
                for i in 0..8 {
                    let (p, q) = (ex(&x[h * 8 + i], 8), ex(&y[h * 8 + i], 8));
                    let c = ar().ult(p, q);
                    let d1 = ar().sub(q, p);
                    let d2 = ar().sub(p, q);
                    let d = ar().ite(c, d1, d2);
                    let d = ar().zext(d, 64);
                    acc = ar().add(acc, d);
                }
                out.push(norm(acc, 64));
            }
            return Ok(V::A(out.into()));
        }
        if is("trap") || is("debugtrap") {
            return end(Kind::Abort, "trap");
        }
        if is("expect.") {
            return Ok(a[0].clone());
        }
        if is("is.constant") {
            return Ok(V::C(0));
        }
        if is("objectsize") {
            return Ok(V::C(u64::MAX));
        }
        end(Kind::Unsupported, format!("intrinsic {}", n))
    }

    fn overflow(&mut self, op: B, signed: bool, w: u32, a: &V, b: &V) -> R<(V, V)> {
        let v = self.bin(op, w, a, b)?;
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let o = if signed {
                    let (x, y) = (sext(*x, w) as i128, sext(*y, w) as i128);
                    let r = match op {
                        B::Add => x + y,
                        B::Sub => x - y,
                        _ => x * y,
                    };
                    let mx = (1i128 << (w - 1)) - 1;
                    r > mx || r < -mx - 1
                } else {
                    let (x, y) = (*x as u128, *y as u128);
                    match op {
                        B::Add => x + y >= 1u128 << w,
                        B::Sub => x < y,
                        _ => x * y >= 1u128 << w,
                    }
                };
                return Ok((v, V::C(o as u64)));
            }
        }
        let x = ex(a, w);
        let y = ex(b, w);
        let m = ar();
        let r = ex(&v, w);
        let o = if signed {
            let sx = m.extract(x, w - 1, 1);
            let sy = m.extract(y, w - 1, 1);
            let sr = m.extract(r, w - 1, 1);
            match op {
                B::Add => {
                    // same operand signs, different result sign
                    let d = m.xor(sx, sy);
                    let same = m.not(d);
                    let ch = m.xor(sx, sr);
                    m.and(same, ch)
                }
                B::Sub => {
                    let d = m.xor(sx, sy);
                    let ch = m.xor(sx, sr);
                    m.and(d, ch)
                }
                _ => {
                    if w > 64 {
                        // by division when one side is constant
                        return end(Kind::Unsupported, "i128 signed mul overflow");
                    }
                    if let Some(k) = m.cst(y) {
                        let ks = ((k << (128 - w)) as i128) >> (128 - w);
                        if ks > 0 {
                            let mx = (1i128 << (w - 1)) - 1;
                            let hi = m.c((mx / ks) as u128, w);
                            let lo = m.c(((-mx - 1) / ks) as u128, w);
                            let p = m.slt(hi, x);
                            let q = m.slt(x, lo);
                            let o = m.or(p, q);
                            return Ok((v, norm(o, 1)));
                        }
                    }
                    let ww = w * 2;
                    let p = m.sext(x, ww);
                    let q = m.sext(y, ww);
                    let f = m.mul(p, q);
                    let t = m.sext(r, ww);
                    m.ne(f, t)
                }
            }
        } else {
            match op {
                B::Add => m.ult(r, x),
                B::Sub => m.ult(x, y),
                _ => {
                    if let Some(k) = m.cst(y) {
                        if k == 0 {
                            m.c(0, 1)
                        } else {
                            let mx = m.c(m128(u128::MAX, w) / k, w);
                            m.ult(mx, x)
                        }
                    } else {
                        if w > 64 {
                            return end(Kind::Unsupported, "u128 mul overflow");
                        }
                        let ww = w * 2;
                        let p = m.zext(x, ww);
                        let q = m.zext(y, ww);
                        let f = m.mul(p, q);
                        let h = m.extract(f, w, w);
                        let z = m.c(0, w);
                        m.ne(h, z)
                    }
                }
            }
        };
        Ok((v, norm(o, 1)))
    }

    pub fn copy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> R<()> {
        let n = self.conc(st, n, 64)?;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, d, 64)?;
        let s = self.conc(st, s, 64)?;
        if n > 1 << 32 {
            return end(Kind::Mem, "huge copy");
        }
        let x = self.read_mem(st, s, n)?;
        self.write_mem(st, d, &x)
    }
    pub fn fill(&mut self, st: &mut State, d: &V, v: &V, n: &V) -> R<()> {
        let n = self.conc(st, n, 64)?;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, d, 64)?;
        if n > 1 << 32 {
            return end(Kind::Mem, "huge fill");
        }
        let (x, o) = self.wdata(st, d, n as usize)?;
        match v {
            V::C(k) => {
                for i in 0..n as usize {
                    x.b[o + i] = *k as u8;
                }
                x.clear_sym(o, n as usize);
            }
            V::E(e) => {
                for i in 0..n as usize {
                    x.set_byte(o + i, *e);
                }
            }
            _ => panic!(),
        }
        Ok(())
    }

    // ---------- path end ----------
    pub fn model_inputs(&mut self, st: &State) -> Vec<(String, u64)> {
        let v: Vec<(String, Ex)> = (*st.inputs).clone();
        v.into_iter().map(|(n, e)| (n, self.s.eval(&st.pc, e) as u64)).collect()
    }
    pub fn record(&mut self, st: &State, outcome: &str) -> PathRec {
        let inputs = self.model_inputs(st);
        let mut obs = vec![];
        for o in st.obs.clone().iter() {
            match o {
                Obs::Val(l, v) => {
                    let x = match v {
                        V::C(k) => *k,
                        V::E(e) => self.s.eval(&st.pc, *e) as u64,
                        _ => 0,
                    };
                    obs.push(format!("{}={}", l, x));
                }
                Obs::Bytes(l, b) => {
                    let mut s = String::new();
                    for v in b {
                        let x = match v {
                            V::C(k) => *k,
                            V::E(e) => self.s.eval(&st.pc, *e) as u64,
                            _ => 0,
                        };
                        s.push_str(&format!("{:02x}", x));
                    }
                    obs.push(format!("{}={}", l, s));
                }
            }
        }
        PathRec { outcome: outcome.to_string(), inputs, obs, covers: (*st.covers).clone() }
    }
    pub fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}|{}", kind, msg);
        let c = self.r.vio_seen.entry(key).or_insert(0);
        *c += 1;
        if *c > 3 {
            return;
        }
        let rec = self.record(st, kind);
        self.r.violations.push((msg.to_string(), rec));
    }
    fn finish(&mut self, mut st: State, e: End) {
        self.r.steps += st.steps;
        self.r.max_forks = self.r.max_forks.max(st.forks);
        if self.trace {
            eprintln!("path end {:?} {} steps {} forks {}", e.kind, e.msg, st.steps, st.forks);
        }
        *self.r.ends.entry(e.kind.name().to_string()).or_insert(0) += 1;
        let allowed = match e.kind {
            Kind::Panic => st.allow & 1 != 0,
            Kind::Exit => st.allow & 2 != 0,
            Kind::Exit0 => st.allow & 16 != 0,
            Kind::Huge => st.allow & 4 != 0,
            Kind::Abort => st.allow & 8 != 0,
            _ => true,
        };
        match e.kind {
            Kind::Assume => return,
            Kind::Time => {
                self.r.leftover += 1;
                return;
            }
            Kind::Steps => {
                // a path that does not end: reported, and confirmed by a native run that hangs
                self.violation(&st, "step-limit", &e.msg);
                return;
            }
            Kind::Unsupported | Kind::Unknown => {
                *self.r.problems.entry(format!("{}: {}", e.kind.name(), e.msg)).or_insert(0) += 1;
                return;
            }
            Kind::Fail => {
                self.r.paths += 1;
                self.violation(&st, "fail", &e.msg);
                return;
            }
            Kind::Mem => {
                self.r.paths += 1;
                self.violation(&st, "memory", &e.msg);
                return;
            }
            _ => {}
        }
        self.r.paths += 1;
        // the solver itself confirms the path condition
        if self.confirm_paths {
            match self.s.confirm(&st.pc, None) {
                Ok(Some(_)) => self.r.confirmed += 1,
                Ok(None) => {
                    *self.r.problems.entry("internal: path condition refuted by the solver".to_string()).or_insert(0) += 1;
                    return;
                }
                Err(_) => {
                    *self.r.problems.entry("solver-unknown: path condition".to_string()).or_insert(0) += 1;
                    return;
                }
            }
        }
        if !allowed {
            self.violation(&st, e.kind.name(), &e.msg);
            return;
        }
        for c in st.covers.iter() {
            *self.r.covers.entry(c.clone()).or_insert(0) += 1;
        }
        // sample for replay against the native build
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let n = self.r.paths;
        let take = self.r.samples.len() < self.max_samples || self.rng % n < self.max_samples as u64;
        if take {
            st.known.clear();
            let out = match e.kind {
                Kind::Ok => "ok".to_string(),
                k => format!("{}", k.name()),
            };
            let rec = self.record(&st, &out);
            if self.r.samples.len() < self.max_samples {
                self.r.samples.push(rec);
            } else {
                let i = (self.rng >> 20) as usize % self.max_samples;
                self.r.samples[i] = rec;
            }
        }
    }
}

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::E(x), V::E(y)) => x == y,
        _ => false,
    }
}

fn fsh(left: bool, w: u32, a: &V, b: &V, s: &V) -> V {
    let (x, y, z) = (ex(a, w), ex(b, w), ex(s, w));
    let m = ar();
    if let Some(k) = m.cst(z) {
        let k = (k % w as u128) as u32;
        if k == 0 {
            return norm(if left { x } else { y }, w);
        }
        let k = if left { k } else { w - k };
        // high w bits of (x:y) << k
        let hi = m.extract(x, 0, w - k);
        let lo = m.extract(y, w - k, k);
        let r = m.concat(hi, lo);
        return norm(r, w);
    }
    // w is a power of two for every Rust integer
    let mk = m.c(w as u128 - 1, w);
    let k = m.and(z, mk);
    let wk = m.c(w as u128, w);
    let inv = m.sub(wk, k);
    let zero = m.c(0, w);
    let is0 = m.eq(k, zero);
    let (r, d) = if left {
        let p = m.shl(x, k);
        let q = m.lshr(y, inv);
        (m.or(p, q), x)
    } else {
        let p = m.shl(x, inv);
        let q = m.lshr(y, k);
        (m.or(p, q), y)
    };
    let r = m.ite(is0, d, r);
    norm(r, w)
}
