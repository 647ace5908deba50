//! Path constraints, byte domains, slicing, caching; Z3 behind it.
use crate::expr::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Pc {
    /// constraints over more than one byte variable or wide variables
    pub cons: Rc<Vec<Ex>>,
    /// domain per variable id (only <= 8-bit variables); missing = full
    pub dom: Rc<HashMap<u32, [u64; 4]>>,
    /// interval per wider variable; missing = full
    pub range: Rc<HashMap<u32, (u64, u64)>>,
    pub model: Rc<Model>,
}

impl Pc {
    pub fn new() -> Pc {
        Pc { cons: Rc::new(vec![]), dom: Rc::new(HashMap::new()), range: Rc::new(HashMap::new()), model: Rc::new(vec![]) }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub z3_calls: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_ns: u64,
    pub dom_decided: u64,
    pub model_decided: u64,
    pub cache_hits: u64,
    pub max_ns: u64,
    pub xchecked: u64,
}

pub struct Solver {
    pub z: Z3,
    cache: HashMap<Vec<Ex>, Option<Rc<Vec<(u32, u64)>>>>,
    pub st: Stats,
    pub budget: u32,
    /// no question is put to the solver after this
    pub deadline: std::time::Instant,
    dom_ex: HashMap<(u32, [u64; 4]), Ex>,
    pub slow_log: bool,
    /// decide again with Z3 everything the byte-domain presolver decided
    pub xcheck: bool,
    stamp_model: Option<Rc<Model>>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Unknown;

fn inter(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn has(s: &[u64; 4], v: u64) -> bool {
    v < 256 && s[(v / 64) as usize] >> (v % 64) & 1 == 1
}
pub fn first(s: &[u64; 4]) -> Option<u64> {
    for i in 0..4 {
        if s[i] != 0 {
            return Some(i as u64 * 64 + s[i].trailing_zeros() as u64);
        }
    }
    None
}
pub fn count(s: &[u64; 4]) -> u32 {
    s.iter().map(|x| x.count_ones()).sum()
}

/// e as "lo <= v <= hi" for a variable of more than 8 bits
fn interval(e: Ex) -> Option<(u32, u64, u64)> {
    let n = *ar().node(e);
    let (neg, n) = if n.op == Op::Not && n.w == 1 { (true, *ar().node(n.a)) } else { (false, n) };
    let side = |v: Ex, k: Ex| {
        let x = *ar().node(v);
        if x.op != Op::Var || x.w <= 8 || x.w > 64 {
            return None;
        }
        let k = ar().cst(k)? as u64;
        let max = if x.w == 64 { u64::MAX } else { (1u64 << x.w) - 1 };
        Some((x.a, k, max))
    };
    match n.op {
        Op::Ult => {
            let (v, k, max) = side(n.a, n.b)?;
            if neg {
                Some((v, k, max))
            } else if k > 0 {
                Some((v, 0, k - 1))
            } else {
                None
            }
        }
        Op::Eq if !neg => {
            let (v, k, _) = side(n.a, n.b).or_else(|| side(n.b, n.a))?;
            Some((v, k, k))
        }
        _ => None,
    }
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            z: Z3::new(),
            cache: HashMap::new(),
            st: Stats::default(),
            budget: 40_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(86400),
            dom_ex: HashMap::new(),
            slow_log: std::env::var("SYMEX_SLOW").is_ok(),
            stamp_model: None,
            xcheck: false,
        }
    }

    pub fn eval(&mut self, pc: &Pc, e: Ex) -> u128 {
        if let Some(k) = ar().cst(e) {
            return k;
        }
        let same = match &self.stamp_model {
            Some(m) => Rc::ptr_eq(m, &pc.model),
            None => false,
        };
        if !same {
            ar().new_stamp();
            self.stamp_model = Some(pc.model.clone());
        }
        ar().eval(e, &pc.model)
    }
    fn drop_stamp(&mut self) {
        self.stamp_model = None;
    }

    pub fn dom(&self, pc: &Pc, v: u32) -> [u64; 4] {
        match pc.dom.get(&v) {
            Some(d) => *d,
            None => ar().full_set(v),
        }
    }
    fn in_cons(&self, pc: &Pc, v: u32) -> bool {
        pc.cons.iter().any(|c| ar().support(*c).binary_search(&v).is_ok())
    }

    /// expression for "v in set"
    fn dom_expr(&mut self, v: u32, s: &[u64; 4]) -> Ex {
        if let Some(e) = self.dom_ex.get(&(v, *s)) {
            return *e;
        }
        let w = ar().vars[v as usize].w;
        let name = ar().vars[v as usize].name.clone();
        let x = ar().var(&name, w);
        // build without the canonicalising constructor collapsing it back: ranges
        let n = 1u64 << w;
        let mut i = 0;
        let mut acc = ar().c(0, 1);
        while i < n {
            if has(s, i) {
                let b = i;
                while i + 1 < n && has(s, i + 1) {
                    i += 1;
                }
                let lo = ar().c(b as u128, w);
                let hi = ar().c(i as u128, w);
                let r = if b == i {
                    ar().eq(x, lo)
                } else {
                    let p = ar().ule(lo, x);
                    let q = ar().ule(x, hi);
                    ar().and(p, q)
                };
                acc = ar().or(acc, r);
            }
            i += 1;
        }
        self.dom_ex.insert((v, *s), acc);
        acc
    }

    fn z3(&mut self, mut cons: Vec<Ex>) -> Result<Option<Rc<Vec<(u32, u64)>>>, Unknown> {
        cons.sort();
        cons.dedup();
        if let Some(r) = self.cache.get(&cons) {
            self.st.cache_hits += 1;
            return Ok(r.clone());
        }
        if std::time::Instant::now() > self.deadline {
            return Err(Unknown);
        }
        let mut vars: Vec<u32> = cons.iter().flat_map(|c| ar().support(*c).iter().copied()).collect();
        vars.sort();
        vars.dedup();
        let t = std::time::Instant::now();
        let r = self.z.check(&cons, &vars, self.budget);
        let el = t.elapsed().as_nanos() as u64;
        self.st.z3_ns += el;
        self.st.max_ns = self.st.max_ns.max(el);
        self.st.z3_calls += 1;
        if self.slow_log && el > std::env::var("SYMEX_SLOW").unwrap().parse::<u64>().unwrap_or(500) * 1_000_000 {
            eprintln!("slow query {} ms, {} cons:", el / 1_000_000, cons.len());
            for c in cons.iter().take(12) {
                eprintln!("   {}", ar().show(*c, 7));
            }
        }
        match r {
            Res::Sat(m) => {
                self.st.z3_sat += 1;
                let m = Rc::new(m);
                self.cache.insert(cons, Some(m.clone()));
                Ok(Some(m))
            }
            Res::Unsat => {
                self.st.z3_unsat += 1;
                self.cache.insert(cons, None);
                Ok(None)
            }
            Res::Unknown => {
                self.st.z3_unknown += 1;
                Err(Unknown)
            }
        }
    }

    pub fn span(&self, pc: &Pc, v: u32) -> (u64, u64) {
        match pc.range.get(&v) {
            Some(r) => *r,
            None => {
                let w = ar().vars[v as usize].w;
                (0, if w >= 64 { u64::MAX } else { (1 << w) - 1 })
            }
        }
    }
    fn span_expr(&mut self, v: u32, r: (u64, u64), out: &mut Vec<Ex>) {
        let w = ar().vars[v as usize].w;
        let name = ar().vars[v as usize].name.clone();
        let x = ar().var(&name, w);
        let lo = ar().c(r.0 as u128, w);
        let hi = ar().c(r.1 as u128, w);
        let es = if r.0 == r.1 { [ar().eq(x, lo), ar().c(1, 1)] } else { [ar().ule(lo, x), ar().ule(x, hi)] };
        for e in es {
            if ar().cst(e).is_none() {
                out.push(e);
            }
        }
    }

    /// constraints of `pc` that share variables (transitively) with `e`
    fn slice(&mut self, pc: &Pc, e: Ex) -> Vec<Ex> {
        let mut vs: std::collections::HashSet<u32> = ar().support(e).iter().copied().collect();
        let mut used = vec![false; pc.cons.len()];
        let mut out = vec![e];
        loop {
            let mut ch = false;
            for (i, c) in pc.cons.iter().enumerate() {
                if !used[i] && ar().support(*c).iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(*c);
                    vs.extend(ar().support(*c).iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut dv: Vec<u32> = vs.into_iter().collect();
        dv.sort();
        for v in dv {
            if let Some(d) = pc.dom.get(&v) {
                let d = *d;
                let x = self.dom_expr(v, &d);
                out.push(x);
            }
            if let Some(r) = pc.range.get(&v) {
                let r = *r;
                self.span_expr(v, r, &mut out);
            }
        }
        out
    }

    fn with_model(&mut self, pc: &Pc, upd: &[(u32, u64)]) -> Rc<Model> {
        let mut m: Model = (*pc.model).clone();
        for (v, x) in upd {
            if m.len() <= *v as usize {
                m.resize(*v as usize + 1, 0);
            }
            m[*v as usize] = *x;
        }
        Rc::new(m)
    }

    /// is pc && e satisfiable? returns a model of it
    pub fn sat(&mut self, pc: &Pc, e: Ex) -> Result<Option<Rc<Model>>, Unknown> {
        if let Some(k) = ar().cst(e) {
            return Ok(if k != 0 { Some(pc.model.clone()) } else { None });
        }
        if self.eval(pc, e) != 0 {
            self.st.model_decided += 1;
            return Ok(Some(pc.model.clone()));
        }
        // flatten conjunction into bytes first
        let mut rest = vec![];
        let mut doms: HashMap<u32, [u64; 4]> = HashMap::new();
        self.split(e, &mut rest, &mut doms);
        let mut single = vec![];
        let mut spans: HashMap<u32, (u64, u64)> = HashMap::new();
        let mut all = true;
        for r in &rest {
            match interval(*r) {
                Some((v, lo, hi)) => {
                    let o = match spans.get(&v) { Some(o) => *o, None => self.span(pc, v) };
                    spans.insert(v, (o.0.max(lo), o.1.min(hi)));
                }
                None => all = false,
            }
        }
        if spans.values().any(|r| r.0 > r.1) {
            self.st.dom_decided += 1;
            if self.xcheck {
                self.st.xchecked += 1;
                let cons = self.slice(pc, e);
                if self.z3(cons)?.is_some() {
                    eprintln!("symex: presolver and solver disagree");
                    std::process::exit(3);
                }
            }
            return Ok(None);
        }
        for (v, s) in &doms {
            let d = inter(&self.dom(pc, *v), s);
            if d == [0; 4] {
                self.st.dom_decided += 1;
                if self.xcheck {
                    self.st.xchecked += 1;
                    let cons = self.slice(pc, e);
                    if self.z3(cons)?.is_some() {
                        eprintln!("symex: presolver and solver disagree");
                        std::process::exit(3);
                    }
                }
                return Ok(None);
            }
            single.push((*v, d));
        }
        if all && single.iter().all(|(v, _)| !self.in_cons(pc, *v)) && spans.keys().all(|v| !self.in_cons(pc, *v)) {
            self.st.dom_decided += 1;
            let mut upd = vec![];
            for (v, d) in &single {
                let cur = *pc.model.get(*v as usize).unwrap_or(&0);
                upd.push((*v, if has(d, cur) { cur } else { first(d).unwrap() }));
            }
            for (v, r) in &spans {
                let cur = *pc.model.get(*v as usize).unwrap_or(&0);
                upd.push((*v, cur.max(r.0).min(r.1)));
            }
            return Ok(Some(self.with_model(pc, &upd)));
        }
        let cons = self.slice(pc, e);
        match self.z3(cons)? {
            None => Ok(None),
            Some(m) => Ok(Some(self.with_model(pc, &m))),
        }
    }

    fn split(&mut self, e: Ex, rest: &mut Vec<Ex>, doms: &mut HashMap<u32, [u64; 4]>) {
        if let Some(s) = ar().bitset(e) {
            let v = ar().byte_var(e).unwrap();
            let d = doms.entry(v).or_insert([u64::MAX; 4]);
            *d = inter(d, &s);
            return;
        }
        let n = *ar().node(e);
        if n.op == Op::And && n.w == 1 {
            self.split(n.a, rest, doms);
            self.split(n.b, rest, doms);
        } else {
            rest.push(e);
        }
    }

    /// add a constraint known to be consistent; `model` must satisfy it
    pub fn add(&mut self, pc: &mut Pc, e: Ex, model: Rc<Model>) {
        if ar().cst(e).is_some() {
            return;
        }
        let mut rest = vec![];
        let mut doms: HashMap<u32, [u64; 4]> = HashMap::new();
        self.split(e, &mut rest, &mut doms);
        if !doms.is_empty() {
            let mut new: Vec<(u32, [u64; 4])> = vec![];
            for (v, s) in doms {
                let old = self.dom(pc, v);
                let d = inter(&old, &s);
                if d != old {
                    new.push((v, d));
                }
            }
            if !new.is_empty() {
                let m = Rc::make_mut(&mut pc.dom);
                for (v, d) in new {
                    m.insert(v, d);
                }
            }
        }
        rest.retain(|r| match interval(*r) {
            Some((v, lo, hi)) => {
                let o = self.span(pc, v);
                let n = (o.0.max(lo), o.1.min(hi));
                if n != o {
                    Rc::make_mut(&mut pc.range).insert(v, n);
                }
                false
            }
            None => true,
        });
        if !rest.is_empty() {
            let c = Rc::make_mut(&mut pc.cons);
            for r in rest {
                if !c.contains(&r) {
                    c.push(r);
                }
            }
        }
        if !Rc::ptr_eq(&pc.model, &model) {
            self.drop_stamp();
            pc.model = model;
        }
        debug_assert!(self.eval(pc, e) != 0);
    }

    /// full set of constraints, decided afresh by Z3 (used to confirm verdicts)
    pub fn confirm(&mut self, pc: &Pc, extra: Option<Ex>) -> Result<Option<Rc<Model>>, Unknown> {
        let mut cons: Vec<Ex> = pc.cons.iter().copied().collect();
        let doms: Vec<(u32, [u64; 4])> = pc.dom.iter().map(|(a, b)| (*a, *b)).collect();
        for (v, d) in doms {
            let x = self.dom_expr(v, &d);
            cons.push(x);
        }
        let spans: Vec<(u32, (u64, u64))> = pc.range.iter().map(|(a, b)| (*a, *b)).collect();
        for (v, r) in spans {
            self.span_expr(v, r, &mut cons);
        }
        if let Some(e) = extra {
            cons.push(e);
        }
        if cons.is_empty() {
            return Ok(Some(pc.model.clone()));
        }
        match self.z3(cons)? {
            None => Ok(None),
            Some(m) => Ok(Some(self.with_model(pc, &m))),
        }
    }

    /// feasible values of a byte-table expression, if its variable is decided by its domain
    pub fn table_values(&mut self, pc: &Pc, e: Ex) -> Option<Vec<u64>> {
        let v = ar().byte_var(e)?;
        let t = ar().table(e)?;
        let d = self.dom(pc, v);
        let mut out: Vec<u64> = vec![];
        for (i, x) in t.iter().enumerate() {
            if has(&d, i as u64) {
                out.push(*x);
            }
        }
        out.sort();
        out.dedup();
        Some(out)
    }
}
