//! Minimal FFI to libz3 and the translation DAG -> Z3.
#![allow(non_camel_case_types)]
use crate::bits::*;
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type P = *mut c_void;
type cs = *const c_char;
// libz3 is loaded with RTLD_DEEPBIND: libLLVM (linked normally) carries its own
// copy of the C++ runtime, and the two must not resolve into each other.
extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
}
fn z3_lib() -> P {
    static H: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let h = H.load(std::sync::atomic::Ordering::Relaxed);
    if h != 0 {
        return h as P;
    }
    for p in [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
        "libz3.so",
        "libz3.so.4",
    ] {
        let c = CString::new(p).unwrap();
        let h = unsafe { dlopen(c.as_ptr(), 2 | 8) };
        if !h.is_null() {
            H.store(h as usize, std::sync::atomic::Ordering::Relaxed);
            return h;
        }
    }
    eprintln!("rsym: cannot load libz3");
    std::process::exit(3)
}
macro_rules! z3api {
    ($(fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => {
        $(#[allow(non_snake_case)]
        #[inline]
        unsafe fn $n($($a: $t),*) $(-> $r)? {
            static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let mut p = F.load(std::sync::atomic::Ordering::Relaxed);
            if p == 0 {
                p = dlsym(z3_lib(), concat!(stringify!($n), "\0").as_ptr() as *const c_char) as usize;
                assert!(p != 0, "missing {}", stringify!($n));
                F.store(p, std::sync::atomic::Ordering::Relaxed);
            }
            let f: unsafe extern "C" fn($($t),*) $(-> $r)? = std::mem::transmute(p);
            f($($a),*)
        })*
    };
}
z3api! {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: cs, v: cs);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: cs) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: cs, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> cs;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> cs;
    fn Z3_solver_to_string(c: P, s: P) -> cs;
}
extern "C" fn on_err(_c: P, code: c_int) {
    // soft errors (e.g. numeral does not fit) are handled by the callers
    if code != 3 && code != 6 {
        eprintln!("z3 error code {code}");
    }
}

pub struct Z3 {
    c: P,
    bv: FxMap<E, P>,
    bl: FxMap<E, P>,
    abs_bv: FxMap<E, P>,
    abs_bl: FxMap<E, P>,
    pub queries: u64,
    pub time: f64,
    pub slowest: f64,
    pub used_abs: bool,
}
#[derive(Debug)]
pub enum Res {
    Sat(Assign),
    Unsat,
    Unknown,
}
pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}
fn sym(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, sym("model").as_ptr(), sym("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            Z3 {
                c,
                bv: Default::default(),
                bl: Default::default(),
                abs_bv: Default::default(),
                abs_bl: Default::default(),
                queries: 0,
                time: 0.0,
                slowest: 0.0,
                used_abs: false,
            }
        }
    }
    unsafe fn num(&self, b: &Bits, w: u32) -> P {
        let so = Z3_mk_bv_sort(self.c, w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, b.u64(), so)
        } else {
            let s = sym(&b.dec(w));
            Z3_mk_numeral(self.c, s.as_ptr(), so)
        }
    }
    unsafe fn mkvar(&self, name: &str, w: u32) -> P {
        let s = Z3_mk_string_symbol(self.c, sym(name).as_ptr());
        Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, w))
    }
    fn is_nonlinear(n: &Node) -> bool {
        match n.op {
            Op::Mul => n.w > 16 && !is_const(n.b),
            Op::UDiv | Op::URem => n.w > 16,
            Op::Digit => true,
            _ => false,
        }
    }
    fn ready(&self, e: E, abs: bool) -> bool {
        let m = if abs { &self.abs_bv } else { &self.bv };
        let b = if abs { &self.abs_bl } else { &self.bl };
        if width(e) == 1 {
            b.contains_key(&e)
        } else {
            m.contains_key(&e)
        }
    }
    unsafe fn get_bv(&mut self, e: E, abs: bool) -> P {
        if width(e) > 1 {
            return if abs { self.abs_bv[&e] } else { self.bv[&e] };
        }
        let b = self.get_bl(e, abs);
        let c = self.c;
        let so = Z3_mk_bv_sort(c, 1);
        Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so))
    }
    unsafe fn get_bl(&mut self, e: E, abs: bool) -> P {
        if abs {
            self.abs_bl[&e]
        } else {
            self.bl[&e]
        }
    }
    unsafe fn is1(&self, x: P) -> P {
        let so = Z3_mk_bv_sort(self.c, 1);
        Z3_mk_eq(self.c, x, Z3_mk_unsigned_int64(self.c, 1, so))
    }
    unsafe fn trans(&mut self, e: E, abs: bool) -> P {
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.ready(x, abs) {
                continue;
            }
            let n = node(x);
            let (ch, k) = children(x);
            let absd = abs && Self::is_nonlinear(&n);
            if absd {
                self.used_abs = true;
            }
            if !done && k > 0 && !absd {
                stack.push((x, true));
                for c in &ch[..k] {
                    if !self.ready(*c, abs) {
                        stack.push((*c, false));
                    }
                }
                continue;
            }
            let c = self.c;
            if n.w == 1 {
                let r = match n.op {
                    Op::Const => {
                        if n.a == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    Op::Eq => {
                        if width(n.a) == 1 {
                            Z3_mk_eq(c, self.get_bl(n.a, abs), self.get_bl(n.b, abs))
                        } else {
                            Z3_mk_eq(c, self.get_bv(n.a, abs), self.get_bv(n.b, abs))
                        }
                    }
                    Op::Ult => Z3_mk_bvult(c, self.get_bv(n.a, abs), self.get_bv(n.b, abs)),
                    Op::Slt => Z3_mk_bvslt(c, self.get_bv(n.a, abs), self.get_bv(n.b, abs)),
                    Op::And => {
                        let v = [self.get_bl(n.a, abs), self.get_bl(n.b, abs)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.get_bl(n.a, abs), self.get_bl(n.b, abs)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    Op::Xor => {
                        if is_const(n.b) {
                            Z3_mk_not(c, self.get_bl(n.a, abs))
                        } else {
                            Z3_mk_xor(c, self.get_bl(n.a, abs), self.get_bl(n.b, abs))
                        }
                    }
                    Op::Ite => Z3_mk_ite(c, self.get_bl(n.a, abs), self.get_bl(n.b, abs), self.get_bl(n.c, abs)),
                    Op::Table => {
                        let t = cx().tables[n.b as usize].clone();
                        let s = self.get_bv(n.a, abs);
                        self.pred_table(s, width(n.a), &t)
                    }
                    Op::Var => {
                        let v = self.mkvar(&cx().vars[n.a as usize].0.clone(), 1);
                        self.is1(v)
                    }
                    Op::Extract => {
                        let v = Z3_mk_extract(c, n.b, n.b, self.get_bv(n.a, abs));
                        self.is1(v)
                    }
                    o => panic!("1-bit {o:?}"),
                };
                if abs {
                    self.abs_bl.insert(x, r);
                } else {
                    self.bl.insert(x, r);
                }
                continue;
            }
            let r = if absd {
                let v = self.mkvar(&format!("abs!{x}"), n.w);
                v
            } else {
                match n.op {
                    Op::Const => self.num(&const_bits(x).unwrap(), n.w),
                    Op::Var => self.mkvar(&cx().vars[n.a as usize].0.clone(), n.w),
                    Op::Extract => Z3_mk_extract(c, n.b + n.w - 1, n.b, self.get_bv(n.a, abs)),
                    Op::Concat => {
                        if is_const(n.a) && const_bits(n.a).unwrap().is_zero() {
                            Z3_mk_zero_ext(c, width(n.a), self.get_bv(n.b, abs))
                        } else {
                            Z3_mk_concat(c, self.get_bv(n.a, abs), self.get_bv(n.b, abs))
                        }
                    }
                    Op::SExt => Z3_mk_sign_ext(c, n.w - width(n.a), self.get_bv(n.a, abs)),
                    Op::Ite => Z3_mk_ite(c, self.get_bl(n.a, abs), self.get_bv(n.b, abs), self.get_bv(n.c, abs)),
                    Op::Table => {
                        let t = cx().tables[n.b as usize].clone();
                        let s = self.get_bv(n.a, abs);
                        self.val_table(s, width(n.a), n.w, &t)
                    }
                    Op::Digit => {
                        let w = width(n.a);
                        let p = cx().pow10[n.b as usize].extract(0, w);
                        let a = self.get_bv(n.a, abs);
                        let q = Z3_mk_bvudiv(c, a, self.num(&p, w));
                        let d = Z3_mk_bvurem(c, q, self.num(&Bits::from_u64(w, 10), w));
                        Z3_mk_extract(c, 7, 0, d)
                    }
                    o => {
                        let (a, b) = (self.get_bv(n.a, abs), self.get_bv(n.b, abs));
                        match o {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            _ => panic!("bv {o:?}"),
                        }
                    }
                }
            };
            if abs {
                self.abs_bv.insert(x, r);
            } else {
                self.bv.insert(x, r);
            }
        }
        if width(e) == 1 {
            self.get_bl(e, abs)
        } else {
            self.get_bv(e, abs)
        }
    }
    unsafe fn in_range(&self, s: P, w: u32, lo: u64, hi: u64) -> P {
        let c = self.c;
        let so = Z3_mk_bv_sort(c, w);
        if lo == hi {
            return Z3_mk_eq(c, s, Z3_mk_unsigned_int64(c, lo, so));
        }
        let mut v = vec![];
        if lo > 0 {
            v.push(Z3_mk_bvule(c, Z3_mk_unsigned_int64(c, lo, so), s));
        }
        if hi < mask(w) {
            v.push(Z3_mk_bvule(c, s, Z3_mk_unsigned_int64(c, hi, so)));
        }
        match v.len() {
            0 => Z3_mk_true(c),
            1 => v[0],
            _ => Z3_mk_and(c, v.len() as u32, v.as_ptr()),
        }
    }
    unsafe fn pred_table(&self, s: P, w: u32, t: &[u64]) -> P {
        let mut v = vec![];
        let mut i = 0;
        while i < t.len() {
            if t[i] == 1 {
                let lo = i;
                while i + 1 < t.len() && t[i + 1] == 1 {
                    i += 1;
                }
                v.push(self.in_range(s, w, lo as u64, i as u64));
            }
            i += 1;
        }
        match v.len() {
            0 => Z3_mk_false(self.c),
            1 => v[0],
            _ => Z3_mk_or(self.c, v.len() as u32, v.as_ptr()),
        }
    }
    unsafe fn val_table(&self, s: P, sw: u32, w: u32, t: &[u64]) -> P {
        // runs of constant value or constant difference to the index
        let c = self.c;
        let so = Z3_mk_bv_sort(c, w);
        let wide = if w >= sw { Z3_mk_zero_ext(c, w - sw, s) } else { Z3_mk_extract(c, w - 1, 0, s) };
        let mut segs: Vec<(usize, usize, bool, u64)> = vec![];
        let mut i = 0;
        while i < t.len() {
            let mut j = i;
            while j + 1 < t.len() && t[j + 1] == t[i] {
                j += 1;
            }
            let mut k = i;
            let d = t[i].wrapping_sub(i as u64) & mask(w);
            while k + 1 < t.len() && t[k + 1].wrapping_sub(k as u64 + 1) & mask(w) == d {
                k += 1;
            }
            if j >= k {
                segs.push((i, j, true, t[i]));
                i = j + 1;
            } else {
                segs.push((i, k, false, d));
                i = k + 1;
            }
        }
        let val = |x: &(usize, usize, bool, u64)| {
            if x.2 {
                Z3_mk_unsigned_int64(c, x.3, so)
            } else {
                Z3_mk_bvadd(c, wide, Z3_mk_unsigned_int64(c, x.3, so))
            }
        };
        let mut r = val(segs.last().unwrap());
        for x in segs[..segs.len() - 1].iter().rev() {
            r = Z3_mk_ite(c, self.in_range(s, sw, x.0 as u64, x.1 as u64), val(x), r);
        }
        r
    }

    pub fn check(&mut self, cs: &[E], vars: &[u32], timeout_ms: u32) -> Res {
        // stage 1: abstract the non-linear operations (sound for unsat)
        let t0 = std::time::Instant::now();
        self.used_abs = false;
        let mut nl = false;
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st: Vec<E> = cs.to_vec();
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            if Self::is_nonlinear(&node(x)) {
                nl = true;
                break;
            }
            let (ch, k) = children(x);
            st.extend(&ch[..k]);
        }
        let mut r = Res::Unknown;
        if nl {
            r = unsafe { self.run(cs, vars, timeout_ms.min(3000), true) };
            if !matches!(r, Res::Unsat) {
                r = Res::Unknown;
            }
        }
        if !matches!(r, Res::Unsat) {
            r = unsafe { self.run(cs, vars, timeout_ms, false) };
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.queries += 1;
        if dt > self.slowest {
            self.slowest = dt;
        }
        if dt > 1.0 && std::env::var("RSYM_SLOW").is_ok() {
            eprintln!("slow query {dt:.2}s ({} constraints) -> {}", cs.len(), match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
            if std::env::var("RSYM_SLOW").unwrap() == "2" {
                for c in cs {
                    eprintln!("   {}", show(*c, 7));
                }
            }
        }
        r
    }
    unsafe fn run(&mut self, cs: &[E], vars: &[u32], timeout_ms: u32, abs: bool) -> Res {
        let c = self.c;
        let logic = Z3_mk_string_symbol(c, sym("QF_BV").as_ptr());
        let s = Z3_mk_solver_for_logic(c, logic);
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, sym("timeout").as_ptr()), timeout_ms);
        Z3_solver_set_params(c, s, p);
        Z3_params_dec_ref(c, p);
        for e in cs {
            let a = self.trans(*e, abs);
            Z3_solver_assert(c, s, a);
        }
        if let Ok(f) = std::env::var("RSYM_DUMP") {
            let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
            let _ = std::fs::write(f, t);
        }
        let r = Z3_solver_check(c, s);
        let res = match r {
            1 => {
                let mut asg: Assign = Default::default();
                if !abs {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    for v in vars {
                        let (name, w) = cx().vars[*v as usize].clone();
                        let a = self.mkvar(&name, w);
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(c, m, a, true, &mut out) {
                            let b = self.numeral(out, w);
                            asg.insert(*v, b);
                        }
                    }
                    Z3_model_dec_ref(c, m);
                }
                Res::Sat(asg)
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        Z3_solver_dec_ref(c, s);
        res
    }
    unsafe fn numeral(&self, a: P, w: u32) -> Bits {
        if w <= 64 {
            let mut v = 0u64;
            if Z3_get_numeral_uint64(self.c, a, &mut v) {
                return Bits::from_u64(w, v);
            }
        }
        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, a)).to_string_lossy().to_string();
        parse_dec(&s, w)
    }
}
pub fn parse_dec(s: &str, w: u32) -> Bits {
    let ww = w.max(64) + 64;
    let mut b = Bits::zero(ww);
    for ch in s.bytes() {
        b = b.mul(&Bits::from_u64(ww, 10), ww).add(&Bits::from_u64(ww, (ch - b'0') as u64), ww);
    }
    b.extract(0, w)
}
