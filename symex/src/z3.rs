//! Minimal binding to libz3 (loaded at run time) and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($( $f:ident ( $($t:ty),* ) $(-> $r:ty)? ; )*) => {
        #[allow(non_snake_case)]
        pub struct Api { $( pub $f: extern "C" fn($($t),*) $(-> $r)?, )* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $( $f: { let n = CString::new(stringify!($f)).unwrap(); let p = dlsym(h, n.as_ptr()); if p.is_null() { panic!("no symbol {}", stringify!($f)); } std::mem::transmute::<P, extern "C" fn($($t),*) $(-> $r)?>(p) }, )* }
            }
        }
    }
}
api! {
    Z3_mk_config() -> P;
    Z3_set_param_value(P, *const c_char, *const c_char);
    Z3_mk_context(P) -> P;
    Z3_set_error_handler(P, extern "C" fn(P, c_uint));
    Z3_get_full_version() -> *const c_char;
    Z3_mk_string_symbol(P, *const c_char) -> P;
    Z3_mk_bv_sort(P, c_uint) -> P;
    Z3_mk_const(P, P, P) -> P;
    Z3_mk_unsigned_int64(P, u64, P) -> P;
    Z3_mk_true(P) -> P;
    Z3_mk_false(P) -> P;
    Z3_mk_not(P, P) -> P;
    Z3_mk_and(P, c_uint, *const P) -> P;
    Z3_mk_or(P, c_uint, *const P) -> P;
    Z3_mk_xor(P, P, P) -> P;
    Z3_mk_eq(P, P, P) -> P;
    Z3_mk_ite(P, P, P, P) -> P;
    Z3_mk_bvnot(P, P) -> P;
    Z3_mk_bvand(P, P, P) -> P;
    Z3_mk_bvor(P, P, P) -> P;
    Z3_mk_bvxor(P, P, P) -> P;
    Z3_mk_bvadd(P, P, P) -> P;
    Z3_mk_bvsub(P, P, P) -> P;
    Z3_mk_bvmul(P, P, P) -> P;
    Z3_mk_bvudiv(P, P, P) -> P;
    Z3_mk_bvsdiv(P, P, P) -> P;
    Z3_mk_bvurem(P, P, P) -> P;
    Z3_mk_bvsrem(P, P, P) -> P;
    Z3_mk_bvshl(P, P, P) -> P;
    Z3_mk_bvlshr(P, P, P) -> P;
    Z3_mk_bvashr(P, P, P) -> P;
    Z3_mk_bvult(P, P, P) -> P;
    Z3_mk_bvslt(P, P, P) -> P;
    Z3_mk_concat(P, P, P) -> P;
    Z3_mk_extract(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext(P, c_uint, P) -> P;
    Z3_mk_sign_ext(P, c_uint, P) -> P;
    Z3_mk_fpa_sort_32(P) -> P;
    Z3_mk_fpa_sort_64(P) -> P;
    Z3_mk_fpa_rne(P) -> P;
    Z3_mk_fpa_rtz(P) -> P;
    Z3_mk_fpa_rtn(P) -> P;
    Z3_mk_fpa_rtp(P) -> P;
    Z3_mk_fpa_rna(P) -> P;
    Z3_mk_fpa_round_to_integral(P, P, P) -> P;
    Z3_mk_fpa_sqrt(P, P, P) -> P;
    Z3_mk_fpa_to_fp_bv(P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv(P, P) -> P;
    Z3_mk_fpa_add(P, P, P, P) -> P;
    Z3_mk_fpa_sub(P, P, P, P) -> P;
    Z3_mk_fpa_mul(P, P, P, P) -> P;
    Z3_mk_fpa_div(P, P, P, P) -> P;
    Z3_mk_fpa_eq(P, P, P) -> P;
    Z3_mk_fpa_lt(P, P, P) -> P;
    Z3_mk_fpa_leq(P, P, P) -> P;
    Z3_mk_fpa_is_nan(P, P) -> P;
    Z3_mk_fpa_to_fp_float(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned(P, P, P, P) -> P;
    Z3_mk_fpa_to_ubv(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_sbv(P, P, P, c_uint) -> P;
    Z3_mk_solver_for_logic(P, P) -> P;
    Z3_mk_simple_solver(P) -> P;
    Z3_solver_inc_ref(P, P);
    Z3_solver_dec_ref(P, P);
    Z3_solver_push(P, P);
    Z3_solver_pop(P, P, c_uint);
    Z3_solver_assert(P, P, P);
    Z3_solver_check(P, P) -> c_int;
    Z3_solver_get_model(P, P) -> P;
    Z3_model_inc_ref(P, P);
    Z3_model_dec_ref(P, P);
    Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64(P, P, *mut u64) -> bool;
    Z3_mk_params(P) -> P;
    Z3_params_inc_ref(P, P);
    Z3_params_set_uint(P, P, P, c_uint);
    Z3_solver_set_params(P, P, P);
    Z3_solver_to_string(P, P) -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_uint) {
    eprintln!("symex: z3 error code {}", e);
    std::process::exit(3);
}

pub struct Z3 {
    a: Api,
    c: P,
    inc: P,
    bv: HashMap<Ex, P>,
    bo: HashMap<Ex, P>,
    vars: HashMap<u32, P>,
    pub version: String,
    inc_uses: u32,
    inc_limit: u32,
}

pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Z3 {
        let mut cands = vec![];
        if let Ok(p) = std::env::var("SYMEX_Z3") {
            cands.push(p);
        }
        cands.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".to_string());
        cands.push("/usr/lib/x86_64-linux-gnu/libz3.so".to_string());
        cands.push("/usr/lib/x86_64-linux-gnu/libz3.so.4".to_string());
        cands.push("libz3.so".to_string());
        unsafe {
            let mut h = std::ptr::null_mut();
            for c in &cands {
                let f = CString::new(c.as_str()).unwrap();
                h = dlopen(f.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                panic!("cannot load libz3: {:?}", CStr::from_ptr(dlerror()));
            }
            let a = Api::load(h);
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(c, on_err);
            let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
            let mut z = Z3 { a, c, inc: std::ptr::null_mut(), bv: HashMap::new(), bo: HashMap::new(), vars: HashMap::new(), version, inc_uses: 0, inc_limit: 0 };
            z.new_inc();
            z
        }
    }
    fn new_inc(&mut self) {
        let a = &self.a;
        if !self.inc.is_null() {
            (a.Z3_solver_dec_ref)(self.c, self.inc);
        }
        let s = (a.Z3_mk_simple_solver)(self.c);
        (a.Z3_solver_inc_ref)(self.c, s);
        self.inc = s;
        self.inc_uses = 0;
        self.inc_limit = 0;
    }
    fn set_rlimit(&self, s: P, n: u32) {
        let a = &self.a;
        let p = (a.Z3_mk_params)(self.c);
        (a.Z3_params_inc_ref)(self.c, p);
        let k = CString::new("rlimit").unwrap();
        let sym = (a.Z3_mk_string_symbol)(self.c, k.as_ptr());
        (a.Z3_params_set_uint)(self.c, p, sym, n);
        (a.Z3_solver_set_params)(self.c, s, p);
    }

    fn sort(&self, w: u32) -> P {
        (self.a.Z3_mk_bv_sort)(self.c, w)
    }
    fn num(&self, v: u128, w: u32) -> P {
        let a = &self.a;
        if w <= 64 {
            (a.Z3_mk_unsigned_int64)(self.c, v as u64, self.sort(w))
        } else {
            let h = (a.Z3_mk_unsigned_int64)(self.c, (v >> 64) as u64, self.sort(w - 64));
            let l = (a.Z3_mk_unsigned_int64)(self.c, v as u64, self.sort(64));
            (a.Z3_mk_concat)(self.c, h, l)
        }
    }
    fn fsort(&self, w: u32) -> P {
        if w == 64 {
            (self.a.Z3_mk_fpa_sort_64)(self.c)
        } else {
            (self.a.Z3_mk_fpa_sort_32)(self.c)
        }
    }
    fn fp(&mut self, e: Ex) -> P {
        let w = ar().w(e);
        let n = *ar().node(e);
        // avoid the round trip through bit vectors for nested float operations
        let x = self.bvt(e);
        let _ = n;
        (self.a.Z3_mk_fpa_to_fp_bv)(self.c, x, self.fsort(w))
    }

    /// boolean translation of a 1-bit expression
    pub fn boolt(&mut self, e: Ex) -> P {
        if let Some(x) = self.bo.get(&e) {
            return *x;
        }
        let n = *ar().node(e);
        debug_assert!(n.w == 1);
        let c = self.c;
        if ar().size(e) > 6 {
            if let Some(v) = ar().byte_var(e) {
                if let Some(s) = ar().bitset(e) {
                    let r = self.ranges(v, s);
                    self.bo.insert(e, r);
                    return r;
                }
            }
        }
        let r = match n.op {
            Op::Const => {
                if n.k != 0 {
                    (self.a.Z3_mk_true)(c)
                } else {
                    (self.a.Z3_mk_false)(c)
                }
            }
            Op::Not => {
                let x = self.boolt(n.a);
                (self.a.Z3_mk_not)(c, x)
            }
            Op::And | Op::Or => {
                let x = [self.boolt(n.a), self.boolt(n.b)];
                if n.op == Op::And {
                    (self.a.Z3_mk_and)(c, 2, x.as_ptr())
                } else {
                    (self.a.Z3_mk_or)(c, 2, x.as_ptr())
                }
            }
            Op::Xor => {
                let x = self.boolt(n.a);
                let y = self.boolt(n.b);
                (self.a.Z3_mk_xor)(c, x, y)
            }
            Op::Ite => {
                let x = self.boolt(n.a);
                let y = self.boolt(n.b);
                let z = self.boolt(n.c);
                (self.a.Z3_mk_ite)(c, x, y, z)
            }
            Op::Eq => {
                let x = self.bvt(n.a);
                let y = self.bvt(n.b);
                (self.a.Z3_mk_eq)(c, x, y)
            }
            Op::Ult => {
                let x = self.bvt(n.a);
                let y = self.bvt(n.b);
                (self.a.Z3_mk_bvult)(c, x, y)
            }
            Op::Slt => {
                let x = self.bvt(n.a);
                let y = self.bvt(n.b);
                (self.a.Z3_mk_bvslt)(c, x, y)
            }
            Op::FEq | Op::FLt | Op::FLe => {
                let x = self.fp(n.a);
                let y = self.fp(n.b);
                match n.op {
                    Op::FEq => (self.a.Z3_mk_fpa_eq)(c, x, y),
                    Op::FLt => (self.a.Z3_mk_fpa_lt)(c, x, y),
                    _ => (self.a.Z3_mk_fpa_leq)(c, x, y),
                }
            }
            Op::FNan => {
                let x = self.fp(n.a);
                (self.a.Z3_mk_fpa_is_nan)(c, x)
            }
            _ => {
                let x = self.bvraw(e);
                let one = self.num(1, 1);
                (self.a.Z3_mk_eq)(c, x, one)
            }
        };
        self.bo.insert(e, r);
        r
    }
    pub fn bvt(&mut self, e: Ex) -> P {
        if let Some(x) = self.bv.get(&e) {
            return *x;
        }
        let n = *ar().node(e);
        if n.w > 1 && ar().size(e) > 24 {
            if let Some((v, t)) = ar().values(e) {
                let x = self.var(v);
                let r = self.select(x, &t, n.w as u32);
                self.bv.insert(e, r);
                return r;
            }
        }
        let r = if n.w == 1 && !matches!(n.op, Op::Var | Op::Extract | Op::Const) {
            let x = self.boolt(e);
            let one = self.num(1, 1);
            let zero = self.num(0, 1);
            (self.a.Z3_mk_ite)(self.c, x, one, zero)
        } else {
            self.bvraw(e)
        };
        self.bv.insert(e, r);
        r
    }
    fn var(&mut self, v: u32) -> P {
        if let Some(x) = self.vars.get(&v) {
            return *x;
        }
        let w = ar().vars[v as usize].w;
        let nm = CString::new(format!("v{}", v)).unwrap();
        let s = (self.a.Z3_mk_string_symbol)(self.c, nm.as_ptr());
        let x = (self.a.Z3_mk_const)(self.c, s, self.sort(w));
        self.vars.insert(v, x);
        x
    }
    /// membership of a byte variable in a set, as range tests
    fn ranges(&mut self, v: u32, set: [u64; 4]) -> P {
        let w = ar().vars[v as usize].w;
        let n = 1usize << w;
        let x = self.var(v);
        let has = |i: usize| set[i / 64] >> (i % 64) & 1 != 0;
        let runs = |want: bool| {
            let mut r: Vec<(usize, usize)> = vec![];
            for i in 0..n {
                if has(i) == want {
                    match r.last_mut() {
                        Some(l) if l.1 + 1 == i => l.1 = i,
                        _ => r.push((i, i)),
                    }
                }
            }
            r
        };
        let (yes, no) = (runs(true), runs(false));
        let (rs, neg) = if yes.len() <= no.len() { (yes, false) } else { (no, true) };
        let mut parts = vec![];
        for (lo, hi) in rs {
            let (l, h) = (self.num(lo as u128, w), self.num(hi as u128, w));
            parts.push(if lo == hi {
                (self.a.Z3_mk_eq)(self.c, x, l)
            } else if lo == 0 {
                let t = (self.a.Z3_mk_bvult)(self.c, h, x);
                (self.a.Z3_mk_not)(self.c, t)
            } else if hi == n - 1 {
                let t = (self.a.Z3_mk_bvult)(self.c, x, l);
                (self.a.Z3_mk_not)(self.c, t)
            } else {
                let t = (self.a.Z3_mk_bvult)(self.c, x, l);
                let u = (self.a.Z3_mk_bvult)(self.c, h, x);
                let tu = [(self.a.Z3_mk_not)(self.c, t), (self.a.Z3_mk_not)(self.c, u)];
                (self.a.Z3_mk_and)(self.c, 2, tu.as_ptr())
            });
        }
        let r = match parts.len() {
            0 => (self.a.Z3_mk_false)(self.c),
            1 => parts[0],
            k => (self.a.Z3_mk_or)(self.c, k as u32, parts.as_ptr()),
        };
        if neg {
            (self.a.Z3_mk_not)(self.c, r)
        } else {
            r
        }
    }
    /// a table of values indexed by a byte variable, as a decision tree
    fn select(&mut self, x: P, t: &[u128], w: u32) -> P {
        if t.iter().all(|y| *y == t[0]) {
            return self.num(t[0], w);
        }
        let h = t.len() / 2;
        let bit = h.trailing_zeros();
        let hi = self.select(x, &t[h..], w);
        let lo = self.select(x, &t[..h], w);
        let b = (self.a.Z3_mk_extract)(self.c, bit, bit, x);
        let one = self.num(1, 1);
        let c = (self.a.Z3_mk_eq)(self.c, b, one);
        (self.a.Z3_mk_ite)(self.c, c, hi, lo)
    }
    fn bvraw(&mut self, e: Ex) -> P {
        let n = *ar().node(e);
        let c = self.c;
        let w = n.w as u32;
        match n.op {
            Op::Const => self.num(n.k, w),
            Op::Var => {
                self.var(n.a)
            }
            Op::Not => {
                let x = self.bvt(n.a);
                (self.a.Z3_mk_bvnot)(c, x)
            }
            Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                let x = self.bvt(n.a);
                let y = self.bvt(n.b);
                let a = &self.a;
                (match n.op {
                    Op::And => a.Z3_mk_bvand,
                    Op::Or => a.Z3_mk_bvor,
                    Op::Xor => a.Z3_mk_bvxor,
                    Op::Add => a.Z3_mk_bvadd,
                    Op::Sub => a.Z3_mk_bvsub,
                    Op::Mul => a.Z3_mk_bvmul,
                    Op::UDiv => a.Z3_mk_bvudiv,
                    Op::SDiv => a.Z3_mk_bvsdiv,
                    Op::URem => a.Z3_mk_bvurem,
                    Op::SRem => a.Z3_mk_bvsrem,
                    Op::Shl => a.Z3_mk_bvshl,
                    Op::LShr => a.Z3_mk_bvlshr,
                    Op::AShr => a.Z3_mk_bvashr,
                    _ => a.Z3_mk_concat,
                })(c, x, y)
            }
            Op::Ite => {
                let x = self.boolt(n.a);
                let y = self.bvt(n.b);
                let z = self.bvt(n.c);
                (self.a.Z3_mk_ite)(c, x, y, z)
            }
            Op::Extract => {
                let x = self.bvt(n.a);
                (self.a.Z3_mk_extract)(c, n.b + w - 1, n.b, x)
            }
            Op::ZExt => {
                let x = self.bvt(n.a);
                (self.a.Z3_mk_zero_ext)(c, w - ar().w(n.a), x)
            }
            Op::SExt => {
                let x = self.bvt(n.a);
                (self.a.Z3_mk_sign_ext)(c, w - ar().w(n.a), x)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let x = self.fp(n.a);
                let y = self.fp(n.b);
                let a = &self.a;
                let rm = (a.Z3_mk_fpa_rne)(c);
                let r = (match n.op {
                    Op::FAdd => a.Z3_mk_fpa_add,
                    Op::FSub => a.Z3_mk_fpa_sub,
                    Op::FMul => a.Z3_mk_fpa_mul,
                    _ => a.Z3_mk_fpa_div,
                })(c, rm, x, y);
                (self.a.Z3_mk_fpa_to_ieee_bv)(c, r)
            }
            Op::FFloor | Op::FCeil | Op::FInt | Op::FRne | Op::FRna | Op::FSqrt => {
                let x = self.fp(n.a);
                let a = &self.a;
                let r = match n.op {
                    Op::FFloor => (a.Z3_mk_fpa_round_to_integral)(c, (a.Z3_mk_fpa_rtn)(c), x),
                    Op::FCeil => (a.Z3_mk_fpa_round_to_integral)(c, (a.Z3_mk_fpa_rtp)(c), x),
                    Op::FInt => (a.Z3_mk_fpa_round_to_integral)(c, (a.Z3_mk_fpa_rtz)(c), x),
                    Op::FRne => (a.Z3_mk_fpa_round_to_integral)(c, (a.Z3_mk_fpa_rne)(c), x),
                    Op::FRna => (a.Z3_mk_fpa_round_to_integral)(c, (a.Z3_mk_fpa_rna)(c), x),
                    _ => (a.Z3_mk_fpa_sqrt)(c, (a.Z3_mk_fpa_rne)(c), x),
                };
                (self.a.Z3_mk_fpa_to_ieee_bv)(c, r)
            }
            Op::FExt | Op::FTrunc => {
                let x = self.fp(n.a);
                let rm = (self.a.Z3_mk_fpa_rne)(c);
                let r = (self.a.Z3_mk_fpa_to_fp_float)(c, rm, x, self.fsort(w));
                (self.a.Z3_mk_fpa_to_ieee_bv)(c, r)
            }
            Op::UToF | Op::SToF => {
                let x = self.bvt(n.a);
                let rm = (self.a.Z3_mk_fpa_rne)(c);
                let r = if n.op == Op::UToF { (self.a.Z3_mk_fpa_to_fp_unsigned)(c, rm, x, self.fsort(w)) } else { (self.a.Z3_mk_fpa_to_fp_signed)(c, rm, x, self.fsort(w)) };
                (self.a.Z3_mk_fpa_to_ieee_bv)(c, r)
            }
            Op::FToU | Op::FToS => {
                // only reached inside range guards
                let x = self.fp(n.a);
                let rm = (self.a.Z3_mk_fpa_rtz)(c);
                if n.op == Op::FToU {
                    (self.a.Z3_mk_fpa_to_ubv)(c, rm, x, w)
                } else {
                    (self.a.Z3_mk_fpa_to_sbv)(c, rm, x, w)
                }
            }
            Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe | Op::FNan => {
                let x = self.boolt(e);
                let one = self.num(1, 1);
                let zero = self.num(0, 1);
                (self.a.Z3_mk_ite)(c, x, one, zero)
            }
        }
    }

    fn run(&mut self, s: P, cons: &[Ex], vars: &[u32]) -> Res {
        for e in cons {
            let b = self.boolt(*e);
            (self.a.Z3_solver_assert)(self.c, s, b);
        }
        let r = (self.a.Z3_solver_check)(self.c, s);
        match r {
            1 => {
                let m = (self.a.Z3_solver_get_model)(self.c, s);
                (self.a.Z3_model_inc_ref)(self.c, m);
                let mut out = vec![];
                for v in vars {
                    if let Some(t) = self.vars.get(v) {
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if (self.a.Z3_model_eval)(self.c, m, *t, true, &mut o) && (self.a.Z3_get_numeral_uint64)(self.c, o, &mut val) {
                            out.push((*v, val));
                        } else {
                            eprintln!("symex: model evaluation failed");
                            std::process::exit(3);
                        }
                    }
                }
                (self.a.Z3_model_dec_ref)(self.c, m);
                Res::Sat(out)
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }

    /// decide the conjunction of `cons`
    pub fn check(&mut self, cons: &[Ex], vars: &[u32], budget: u32) -> Res {
        self.inc_uses += 1;
        if self.inc_uses > 400 {
            self.new_inc();
        }
        let s = self.inc;
        let first = (budget / 10).max(200_000).min(3_000_000);
        if self.inc_limit != first {
            self.set_rlimit(s, first);
            self.inc_limit = first;
        }
        (self.a.Z3_solver_push)(self.c, s);
        let r = self.run(s, cons, vars);
        (self.a.Z3_solver_pop)(self.c, s, 1);
        match r {
            Res::Unknown => {
                let has_fp = false;
                let _ = has_fp;
                let l = CString::new("QF_FPBV").unwrap();
                let l2 = CString::new("QF_BV").unwrap();
                let fp = cons.iter().any(|e| has_float(*e));
                let sym = (self.a.Z3_mk_string_symbol)(self.c, if fp { l.as_ptr() } else { l2.as_ptr() });
                let s = (self.a.Z3_mk_solver_for_logic)(self.c, sym);
                (self.a.Z3_solver_inc_ref)(self.c, s);
                self.set_rlimit(s, budget);
                let r = self.run(s, cons, vars);
                if let Res::Unknown = r {
                    if let Ok(p) = std::env::var("SYMEX_DUMP_UNKNOWN") {
                        let t = unsafe { CStr::from_ptr((self.a.Z3_solver_to_string)(self.c, s)) };
                        let _ = std::fs::write(format!("{}/{}-{}.smt2", p, std::process::id(), self.inc_uses), t.to_bytes());
                    }
                }
                (self.a.Z3_solver_dec_ref)(self.c, s);
                self.new_inc();
                r
            }
            r => r,
        }
    }
}

fn has_float(e: Ex) -> bool {
    fn go(e: Ex, seen: &mut std::collections::HashSet<Ex>) -> bool {
        if !seen.insert(e) {
            return false;
        }
        let n = *ar().node(e);
        match n.op {
            Op::Const | Op::Var => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FNan | Op::FExt | Op::FTrunc | Op::FToU | Op::FToS | Op::UToF | Op::SToF | Op::FFloor | Op::FCeil | Op::FInt | Op::FRne | Op::FRna | Op::FSqrt => true,
            Op::Extract | Op::Not | Op::ZExt | Op::SExt => go(n.a, seen),
            Op::Ite => go(n.a, seen) || go(n.b, seen) || go(n.c, seen),
            _ => go(n.a, seen) || go(n.b, seen),
        }
    }
    go(e, &mut std::collections::HashSet::new())
}
