//! Engine hooks: compiler intrinsics, the allocator and memory primitives, the
//! harness API (`__sym_*`), panics, and summaries of third-party / std code
//! (keccak permutation, decimal formatting, 256-bit arithmetic).
use crate::bits::*;
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub enum HookRes {
    Value(Option<Val>),
    Entered,
    Fallthrough,
    Redirect(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    Nop,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    MemCpy,
    MemSet,
    MemCmp(bool), // true: bcmp
    StrLen,
    Panic,
    Abort,
    Expect,
    Ovf(Bin, bool), // op, signed
    MinMax(u8),     // 0 umin 1 umax 2 smin 3 smax
    Sat(Bin, bool),
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    Abs,
    Fsh(bool), // left
    Cmp3(bool),
    Reduce(Bin),
    ReduceMinMax(u8),
    IsConstant,
    ObjSize,
    PtrMask,
    Ident,
    // sym api
    SBytes,
    SChars,
    SChoice,
    SAssume,
    SAssert,
    SReach,
    SCatch,
    SIsSym,
    SPrint,
    SKeep,
    SDec,
    Keccak,
    DispInt(u32),
    ToStrInt(u32),
    HexU8(bool),
    U256Zero,
    U256Cmp,
    U256Mul,
    U256DivRem,
    U256Add,
    U256Sub,
    U256Parse,
    ParseU128,
    ZeroVal,
    GetRandom,
    SipFinish,
    KeccakPlain,
}

#[derive(Default)]
pub struct HookCtx {
    pub kinds: Vec<H>,
    pub pad_integral: Option<usize>,
    pub names: Vec<String>,
    pub summarised: std::collections::BTreeSet<String>,
}

/// third-party functions explored with function-level path merging
pub const MERGE: &[&str] = &["3hex3val"];

/// Which functions must survive optimisation un-inlined.
pub fn is_hooked(name: &str) -> bool {
    kind_of(name).is_some() || is_merge(name)
}
pub fn is_merge_third_party(n: &str) -> bool {
    n.starts_with("_R") && MERGE.iter().any(|m| n.ends_with(m))
}
pub fn is_merge(n: &str) -> bool {
    is_merge_third_party(n) || n.contains("sym_merge_")
}
pub fn kind_of(n: &str) -> Option<H> {
    if let Some(r) = n.strip_prefix("llvm.") {
        return intrinsic(r);
    }
    if let Some(r) = n.strip_prefix("__sym_") {
        return Some(match r {
            "bytes" => H::SBytes,
            "chars" => H::SChars,
            "choice" => H::SChoice,
            "assume" => H::SAssume,
            "assert" => H::SAssert,
            "reach" => H::SReach,
            "catch" => H::SCatch,
            "is_symbolic" => H::SIsSym,
            "print" => H::SPrint,
            "keep" => H::SKeep,
            "dec" => H::SDec,
            "u256_parse" => H::U256Parse,
            _ => return None,
        });
    }
    match n {
        "memcpy" | "memmove" => return Some(H::MemCpy),
        "memset" => return Some(H::MemSet),
        "memcmp" => return Some(H::MemCmp(false)),
        "bcmp" => return Some(H::MemCmp(true)),
        "strlen" => return Some(H::StrLen),
        "abort" => return Some(H::Abort),
        "getrandom" => return Some(H::GetRandom),
        _ => {}
    }
    if !n.starts_with("_R") {
        return None;
    }
    if n.contains("7___rustc") {
        for (s, h) in [
            ("12___rust_alloc", H::Alloc),
            ("19___rust_alloc_zeroed", H::AllocZeroed),
            ("14___rust_dealloc", H::Dealloc),
            ("14___rust_realloc", H::Realloc),
            ("17rust_begin_unwind", H::Panic),
        ] {
            if n.ends_with(s) {
                return Some(h);
            }
        }
        if n.contains("no_alloc_shim") {
            return Some(H::Nop);
        }
        if n.contains("alloc_error_handler") {
            return Some(H::Panic);
        }
        if n.contains("rust_foreign_exception") || n.contains("rust_panic_cleanup") || n.contains("rust_drop_panic") {
            return Some(H::Abort);
        }
    }
    if n.contains("4core9panicking") || n.contains("4core6option13expect_failed") || n.contains("4core6option13unwrap_failed") || n.contains("4core6result13unwrap_failed") {
        if n.contains("4core9panicking") && (n.contains("9assert_eq") || n.contains("13AssertKind")) && !n.contains("19assert_failed_inner") {
            return Some(H::Panic);
        }
        return Some(H::Panic);
    }
    if n.contains("3std9panicking") && (n.contains("11begin_panic") || n.contains("15rust_panic") || n.contains("13begin_panic_h") || n.contains("19begin_panic_handler")) {
        return Some(H::Panic);
    }
    if n.contains("5alloc5alloc18handle_alloc_error") || n.contains("7raw_vec12handle_error") || n.contains("7raw_vec17capacity_overflow") {
        return Some(H::Panic);
    }
    if n.contains("4core3str16slice_error_fail") {
        return Some(H::Panic);
    }
    if n.contains("4core3num3fmt") {
        return None;
    }
    if n.contains("4core4hash3sip") && n.contains("6Hasher6finish") {
        return Some(H::SipFinish);
    }
    if n.contains("4core4hash3sip") && n.contains("6Hasher5write") {
        return Some(H::Nop);
    }
    if n.contains("6keccak8keccak_pyE") {
        return Some(H::Keccak);
    }
    // integer formatting
    if n.contains("3fmt3numhNt") && n.ends_with("8UpperHex3fmt") {
        return Some(H::HexU8(true));
    }
    if n.contains("3fmt3numhNt") && n.ends_with("8LowerHex3fmt") {
        return Some(H::HexU8(false));
    }
    if n.contains("3fmt3num3imp") && n.ends_with("7Display3fmt") {
        let k = n.find("3fmt3num3imp").unwrap() + "3fmt3num3imp".len();
        return match &n[k..k + 1] {
            "h" => Some(H::DispInt(8)),
            "t" => Some(H::DispInt(16)),
            "m" => Some(H::DispInt(32)),
            "y" | "j" => Some(H::DispInt(64)),
            "o" => Some(H::DispInt(128)),
            _ => None,
        };
    }
    if n.contains("3fmt3num") && n.ends_with("7Display3fmt") {
        for (s, w) in [("NtB", 0)] {
            let _ = (s, w);
        }
        if n.contains("_oNt") || n.contains("3numoNt") {
            return Some(H::DispInt(128));
        }
    }
    if n.contains("5BUintKj4_E7is_zero") {
        return Some(H::U256Zero);
    }
    if n.contains("5BUintKj4_E3cmp") {
        return Some(H::U256Cmp);
    }
    if n.contains("5BUintKj4_E15overflowing_add") {
        return Some(H::U256Add);
    }
    if n.contains("5BUintKj4_E15overflowing_sub") {
        return Some(H::U256Sub);
    }
    if n.contains("5BUintKj4_E8long_mul") {
        return Some(H::U256Mul);
    }
    if n.contains("5BUintKj4_E17div_rem_unchecked") {
        return Some(H::U256DivRem);
    }
    if n.contains("3numo27from_ascii_bytes_radix_impl") {
        return Some(H::ParseU128);
    }
    if n.contains("SpecToString14spec_to_string") {
        for (s, w) in [("stringh", 8), ("stringt", 16), ("stringm", 32), ("stringy", 64), ("stringj", 64), ("stringo", 128)] {
            if n.contains(s) {
                return Some(H::ToStrInt(w));
            }
        }
    }
    None
}
fn intrinsic(r: &str) -> Option<H> {
    let b = r.split('.').collect::<Vec<_>>();
    Some(match b[0] {
        "lifetime" | "assume" | "dbg" | "donothing" | "prefetch" | "invariant" => H::Nop,
        "experimental" => H::Nop,
        "memcpy" | "memmove" => H::MemCpy,
        "memset" => H::MemSet,
        "expect" => H::Expect,
        "trap" | "ubsantrap" | "debugtrap" => H::Abort,
        "uadd" if b[1] == "with" => H::Ovf(Bin::Add, false),
        "usub" if b[1] == "with" => H::Ovf(Bin::Sub, false),
        "umul" if b[1] == "with" => H::Ovf(Bin::Mul, false),
        "sadd" if b[1] == "with" => H::Ovf(Bin::Add, true),
        "ssub" if b[1] == "with" => H::Ovf(Bin::Sub, true),
        "smul" if b[1] == "with" => H::Ovf(Bin::Mul, true),
        "uadd" => H::Sat(Bin::Add, false),
        "usub" => H::Sat(Bin::Sub, false),
        "sadd" => H::Sat(Bin::Add, true),
        "ssub" => H::Sat(Bin::Sub, true),
        "umin" => H::MinMax(0),
        "umax" => H::MinMax(1),
        "smin" => H::MinMax(2),
        "smax" => H::MinMax(3),
        "ctlz" => H::Ctlz,
        "cttz" => H::Cttz,
        "ctpop" => H::Ctpop,
        "bswap" => H::Bswap,
        "bitreverse" => H::BitReverse,
        "abs" => H::Abs,
        "fshl" => H::Fsh(true),
        "fshr" => H::Fsh(false),
        "ucmp" => H::Cmp3(false),
        "scmp" => H::Cmp3(true),
        "is" if b[1] == "constant" => H::IsConstant,
        "objectsize" => H::ObjSize,
        "ptrmask" => H::PtrMask,
        "threadlocal" | "launder" | "strip" | "freeze" | "ssa" => H::Ident,
        "vector" if b[1] == "reduce" => match b[2] {
            "add" => H::Reduce(Bin::Add),
            "mul" => H::Reduce(Bin::Mul),
            "and" => H::Reduce(Bin::And),
            "or" => H::Reduce(Bin::Or),
            "xor" => H::Reduce(Bin::Xor),
            "umin" => H::ReduceMinMax(0),
            "umax" => H::ReduceMinMax(1),
            "smin" => H::ReduceMinMax(2),
            "smax" => H::ReduceMinMax(3),
            _ => return None,
        },
        _ => return None,
    })
}

/// attach hooks to a lowered program
pub fn attach(p: &mut Program) -> HookCtx {
    let mut h = HookCtx::default();
    for (i, f) in p.funcs.iter_mut().enumerate() {
        f.merge = is_merge(&f.name) && f.defined;
        if let Some(k) = kind_of(&f.name) {
            h.kinds.push(k);
            h.names.push(f.name.clone());
            f.hook = h.kinds.len() as u32;
        }
        if f.name.ends_with("9Formatter12pad_integral") {
            h.pad_integral = Some(i);
        }
    }
    h
}

fn lanes(t: &Ty, args: &[&Val], f: &dyn Fn(u32, &[&Val]) -> R<Val>) -> R<Val> {
    match t {
        Ty::Int(w) => f(*w, args),
        Ty::Agg(a) => {
            let n = a.fields.len();
            let mut r = vec![];
            for i in 0..n {
                let mut x = vec![];
                for v in args {
                    match v {
                        Val::A(l) => x.push(&l[i]),
                        o => x.push(*o),
                    }
                }
                r.push(f(a.fields[i].1.w(), &x)?);
            }
            Ok(Val::A(Rc::new(r)))
        }
        _ => err("intrinsic type"),
    }
}
fn ovf(op: Bin, signed: bool, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
    let r = bin(op, w, a, b)?;
    let (x, y) = (a.e(w), b.e(w));
    let o = match (op, signed) {
        (Bin::Add, false) => uaddo(x, y),
        (Bin::Sub, false) => ult(x, y),
        (Bin::Mul, false) => umulo(x, y),
        (_, true) => {
            let w2 = if op == Bin::Mul { 2 * w } else { w + 1 };
            let (p, q) = (sext(x, w2), sext(y, w2));
            let z = match op {
                Bin::Add => add(p, q),
                Bin::Sub => sub(p, q),
                _ => mul(p, q),
            };
            ne(z, sext(r.e(w), w2))
        }
        _ => return err("overflow op"),
    };
    Ok((r, Val::norm(o)))
}
fn minmax(k: u8, w: u32, a: &Val, b: &Val) -> Val {
    let (x, y) = (a.e(w), b.e(w));
    let c = match k {
        0 => ult(x, y),
        1 => ult(y, x),
        2 => slt(x, y),
        _ => slt(y, x),
    };
    Val::norm(ite(c, x, y))
}
fn bitcount(kind: H, w: u32, a: &Val) -> R<Val> {
    let e = a.e(w);
    if let Some(b) = const_bits(e) {
        let l = b.limbs();
        let n: u32 = match kind {
            H::Ctpop => l.iter().map(|x| x.count_ones()).sum(),
            H::Ctlz => w - b.blen(),
            _ => {
                if b.is_zero() {
                    w
                } else {
                    (0..w).find(|i| b.bit(*i)).unwrap()
                }
            }
        };
        return Ok(Val::norm(cst(w, n as u64)));
    }
    // a chain of ites / sum of bits
    let r = match kind {
        H::Ctpop => {
            let mut s = cst(w, 0);
            for i in 0..w {
                s = add(s, zext(extract(e, i, 1), w));
            }
            s
        }
        H::Ctlz => {
            let mut s = cst(w, w as u64);
            for i in 0..w {
                s = ite(extract(e, i, 1), cst(w, (w - 1 - i) as u64), s);
            }
            s
        }
        _ => {
            let mut s = cst(w, w as u64);
            for i in (0..w).rev() {
                s = ite(extract(e, i, 1), cst(w, i as u64), s);
            }
            s
        }
    };
    Ok(Val::norm(r))
}
fn bswap(e: E) -> E {
    let n = width(e) / 8;
    let p: Vec<E> = (0..n).map(|i| extract(e, 8 * i, 8)).collect();
    concat_all(&p)
}

pub fn ndigits(w: u32) -> u32 {
    match w {
        8 => 3,
        16 => 5,
        32 => 10,
        64 => 20,
        128 => 39,
        256 => 78,
        _ => panic!("digits"),
    }
}
/// Fixed-width decimal representation (most significant first).
pub fn dec_bytes(e: E) -> Vec<E> {
    let n = ndigits(width(e));
    (0..n).rev().map(|i| add(digit(e, i), cst(8, b'0' as u64))).collect()
}

impl Engine {
    fn cstr(&self, st: &State, p: &Val, n: &Val) -> R<String> {
        let (Val::C(p), Val::C(n)) = (p, n) else { return err("symbolic label") };
        match self.read_conc(st, *p, *n)? {
            Some(b) => Ok(String::from_utf8_lossy(&b).to_string()),
            None => err("symbolic label"),
        }
    }
    fn unique(&self, st: &mut State, base: &str) -> String {
        use std::hash::{Hash, Hasher};
        let mut h = Fx::default();
        base.hash(&mut h);
        let k = st.names.entry(h.finish()).or_insert(0);
        let n = format!("{base}#{k}");
        *k += 1;
        n
    }
    /// the value of fixed-width decimal text (39 or 78 digits), if it is
    /// symbolic and each character is certainly a digit
    fn dec_value(&self, st: &State, p: u64, n: u64) -> R<Option<E>> {
        if n != 39 && n != 78 || self.read_conc(st, p, n)?.is_some() {
            return Ok(None);
        }
        let w = if n == 39 { 128 } else { 256 };
        let mut acc = cst(w, 0);
        for c in self.read_bytes(st, p, n)? {
            let d = sub(c, cst(8, b'0' as u64));
            if !range_ok(d) || range(d).1 > 9 || umulo(acc, cst(w, 10)) != fls() {
                return Ok(None);
            }
            let m = mul(acc, cst(w, 10));
            if uaddo(m, zext(d, w)) != fls() {
                return Ok(None);
            }
            acc = add(m, zext(d, w));
        }
        Ok(Some(zext(acc, 256)))
    }
    pub fn note(&mut self, s: &str) {
        if !self.hookctx.summarised.contains(s) {
            self.hookctx.summarised.insert(s.to_string());
        }
    }

    pub fn hook(&mut self, fun: &'static Func, _fi: usize, st: &mut State, c: &'static Call, a: &[Val], work: &mut Work) -> R<HookRes> {
        let k = self.hookctx.kinds[fun.hook as usize - 1];
        let ok = |v: Val| Ok(HookRes::Value(Some(v)));
        let none = || Ok(HookRes::Value(None));
        match k {
            H::Nop => none(),
            H::Alloc | H::AllocZeroed => {
                let n = self.conc(st, &a[0], 64, work)?;
                if n > 64 << 20 {
                    return err(format!("allocation of {n} bytes"));
                }
                let (p, _) = st.mem.alloc(n);
                ok(Val::C(p))
            }
            H::Dealloc => {
                let p = self.conc(st, &a[0], 64, work)?;
                if !st.mem.dealloc(p) {
                    return err(format!("invalid dealloc of {p:#x}"));
                }
                none()
            }
            H::Realloc => {
                // (ptr, old, align, new)
                let p = self.conc(st, &a[0], 64, work)?;
                let old = self.conc(st, &a[1], 64, work)?;
                let new = self.conc(st, &a[3], 64, work)?;
                let (q, _) = st.mem.alloc(new);
                self.copy(st, q, p, old.min(new))?;
                if !st.mem.dealloc(p) {
                    return err("invalid realloc");
                }
                ok(Val::C(q))
            }
            H::MemCpy => {
                let n = self.conc(st, &a[2], 64, work)?;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64, work)?;
                    let s = self.conc(st, &a[1], 64, work)?;
                    self.copy(st, d, s, n)?;
                }
                ok(a[0].clone())
            }
            H::MemSet => {
                let n = self.conc(st, &a[2], 64, work)?;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64, work)?;
                    match &a[1] {
                        Val::C(v) => self.write_conc(st, d, &vec![*v as u8; n as usize])?,
                        v => {
                            let w = match &c.atys[1] {
                                Ty::Int(w) => *w,
                                _ => return err("memset"),
                            };
                            let b = extract(v.e(w), 0, 8);
                            self.write_bytes(st, d, &vec![b; n as usize])?
                        }
                    }
                }
                ok(a[0].clone())
            }
            H::MemCmp(bcmp) => {
                let n = self.conc(st, &a[2], 64, work)?;
                if n == 0 {
                    return ok(Val::C(0));
                }
                let p = self.conc(st, &a[0], 64, work)?;
                let q = self.conc(st, &a[1], 64, work)?;
                if p == q {
                    return ok(Val::C(0));
                }
                let (cx_, cy) = (self.read_conc(st, p, n)?, self.read_conc(st, q, n)?);
                if let (Some(x), Some(y)) = (&cx_, &cy) {
                    return ok(Val::C(match x.cmp(y) {
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    }));
                }
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                let mut e = tru();
                for i in 0..x.len() {
                    if let (Some(a), Some(b)) = (cval(x[i]), cval(y[i])) {
                        if a != b {
                            e = fls();
                            break;
                        }
                    }
                }
                if e == tru() {
                    // equality does not depend on the byte order: prefer the
                    // one in which both sides are single terms
                    let (rx, ry): (Vec<E>, Vec<E>) = (x.iter().rev().copied().collect(), y.iter().rev().copied().collect());
                    let (cx_, cy) = (concat_all(&rx), concat_all(&ry));
                    let single = |c: E| matches!(node(c).op, Op::Extract | Op::Var) || is_const(c);
                    e = if single(cx_) && single(cy) { eq(cx_, cy) } else { eq(concat_all(&x), concat_all(&y)) };
                }
                if bcmp {
                    return ok(Val::norm(ite(e, cst(32, 0), cst(32, 1))));
                }
                // lexicographic comparison: skip the common concrete prefix,
                // decide on the first differing concrete byte when possible
                let mut i = 0;
                while i < x.len() && x[i] == y[i] {
                    i += 1;
                }
                if i == x.len() {
                    return ok(Val::C(0));
                }
                let mut j = x.len();
                for k in i..x.len() {
                    if eq(x[k], y[k]) == fls() {
                        j = k + 1;
                        break;
                    }
                }
                let lt = ult(concat_all(&x[i..j]), concat_all(&y[i..j]));
                ok(Val::norm(ite(e, cst(32, 0), ite(lt, cst(32, 0xffff_ffff), cst(32, 1)))))
            }
            H::StrLen => {
                let p = self.conc(st, &a[0], 64, work)?;
                let mut n = 0;
                loop {
                    match self.read_conc(st, p + n, 1)? {
                        Some(b) if b[0] == 0 => break,
                        Some(_) => n += 1,
                        None => return err("symbolic strlen"),
                    }
                }
                ok(Val::C(n))
            }
            H::Panic => {
                let msg = self.panic_msg(st, a);
                let d = format!("{:#}", rustc_demangle::demangle(&fun.name));
                Err(Stop::Panic(format!("{} {} at {}", d.rsplit("::").next().unwrap_or(""), msg, Self::backtrace(st))))
            }
            H::Abort => err(format!("abort ({})", fun.name)),
            H::Expect | H::Ident => ok(a[0].clone()),
            H::IsConstant => ok(Val::C(0)),
            H::ObjSize => ok(Val::C(!0)),
            H::PtrMask => ok(bin(Bin::And, 64, &a[0], &a[1])?),
            H::Ovf(op, s) => match &c.atys[0] {
                Ty::Int(w) => {
                    let (r, o) = ovf(op, s, *w, &a[0], &a[1])?;
                    ok(Val::A(Rc::new(vec![r, o])))
                }
                Ty::Agg(t) => {
                    let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) else { return err("ovf vec") };
                    let mut rs = vec![];
                    let mut os = vec![];
                    for i in 0..x.len() {
                        let (r, o) = ovf(op, s, t.fields[i].1.w(), &x[i], &y[i])?;
                        rs.push(r);
                        os.push(o);
                    }
                    ok(Val::A(Rc::new(vec![Val::A(Rc::new(rs)), Val::A(Rc::new(os))])))
                }
                _ => err("ovf type"),
            },
            H::MinMax(m) => ok(lanes(&c.ret, &[&a[0], &a[1]], &|w, v| Ok(minmax(m, w, v[0], v[1])))?),
            H::Sat(op, signed) => ok(lanes(&c.ret, &[&a[0], &a[1]], &|w, v| {
                let (r, o) = ovf(op, signed, w, v[0], v[1])?;
                let lim = if signed {
                    let neg = slt(v[0].e(w), cst(w, 0));
                    let mn = Bits::from_u64(w, 1).shl(w - 1, w);
                    ite(neg, cbits(w, &mn), cbits(w, &mn.not(w)))
                } else if op == Bin::Add {
                    cbits(w, &Bits::ones(w))
                } else {
                    cbits(w, &Bits::zero(w))
                };
                Ok(Val::norm(ite(o.e(1), lim, r.e(w))))
            })?),
            H::Ctlz | H::Cttz | H::Ctpop => ok(lanes(&c.ret, &[&a[0]], &|w, v| bitcount(k, w, v[0]))?),
            H::Bswap => ok(lanes(&c.ret, &[&a[0]], &|w, v| Ok(Val::norm(bswap(v[0].e(w)))))?),
            H::BitReverse => ok(lanes(&c.ret, &[&a[0]], &|w, v| {
                let e = v[0].e(w);
                let p: Vec<E> = (0..w).map(|i| extract(e, i, 1)).collect();
                Ok(Val::norm(concat_all(&p)))
            })?),
            H::Abs => ok(lanes(&c.ret, &[&a[0]], &|w, v| {
                let e = v[0].e(w);
                Ok(Val::norm(ite(slt(e, cbits(w, &Bits::zero(w))), neg(e), e)))
            })?),
            H::Fsh(left) => ok(lanes(&c.ret, &[&a[0], &a[1], &a[2]], &|w, v| {
                let (x, y) = (v[0].e(w), v[1].e(w));
                match v[2] {
                    Val::C(s) => {
                        let s = (*s % w as u64) as u32;
                        let s = if left { s } else { w - s };
                        let c = concat(x, y);
                        Ok(Val::norm(extract(c, w - s % (w + 1), w)))
                    }
                    s => {
                        let s = urem(s.e(w), cst(w, w as u64));
                        let c2 = concat(x, y);
                        let s2 = zext(s, 2 * w);
                        Ok(Val::norm(if left { extract(shl(c2, s2), w, w) } else { extract(lshr(c2, s2), 0, w) }))
                    }
                }
            })?),
            H::Cmp3(signed) => {
                let Ty::Int(w) = c.atys[0] else { return err("cmp3") };
                let Ty::Int(rw) = c.ret else { return err("cmp3") };
                let (x, y) = (a[0].e(w), a[1].e(w));
                let lt = if signed { slt(x, y) } else { ult(x, y) };
                ok(Val::norm(ite(lt, cst(rw, mask(rw)), ite(eq(x, y), cst(rw, 0), cst(rw, 1)))))
            }
            H::Reduce(op) => {
                let Ty::Agg(t) = &c.atys[0] else { return err("reduce") };
                let Val::A(x) = &a[0] else { return err("reduce") };
                let w = t.fields[0].1.w();
                let mut r = x[0].clone();
                for v in &x[1..] {
                    r = bin(op, w, &r, v)?;
                }
                ok(r)
            }
            H::ReduceMinMax(m) => {
                let Ty::Agg(t) = &c.atys[0] else { return err("reduce") };
                let Val::A(x) = &a[0] else { return err("reduce") };
                let w = t.fields[0].1.w();
                let mut r = x[0].clone();
                for v in &x[1..] {
                    r = minmax(m, w, &r, v);
                }
                ok(r)
            }
            // ---------------------------------------------------- harness api
            H::SBytes => {
                let base = self.cstr(st, &a[0], &a[1])?;
                let (Val::C(p), Val::C(n)) = (&a[2], &a[3]) else { return err("sym_bytes args") };
                let name = self.unique(st, &base);
                if *n > 0 {
                    let w = *n as u32 * 8;
                let v = var(&format!("{name}:{w}"), w);
                    let b: Vec<E> = (0..*n as u32).map(|i| extract(v, 8 * i, 8)).collect();
                    self.write_bytes(st, *p, &b)?;
                    st.inputs.push((name, v, *n as u32));
                }
                none()
            }
            H::SChars => {
                // (name, nlen, out, n, alphabet, alen): alen a power of two <= 128
                let base = self.cstr(st, &a[0], &a[1])?;
                let alpha = self.cstr(st, &a[4], &a[5])?.into_bytes();
                let (Val::C(p), Val::C(n)) = (&a[2], &a[3]) else { return err("sym_chars args") };
                let bits = alpha.len().trailing_zeros();
                if !alpha.len().is_power_of_two() || bits == 0 || bits > 7 {
                    return err("alphabet size must be a power of two");
                }
                let name = self.unique(st, &base);
                if *n == 0 {
                    return none();
                }
                let w = *n as u32 * bits;
                let v = var(&format!("{name}:{w}"), w);
                let mut t: Vec<u64> = alpha.iter().map(|x| *x as u64).collect();
                t.truncate(1 << bits);
                let b: Vec<E> = (0..*n as u32).map(|i| mk_table(extract(v, bits * i, bits), 8, t.clone())).collect();
                self.write_bytes(st, *p, &b)?;
                let e = concat_all(&b.iter().rev().copied().collect::<Vec<_>>());
                st.inputs.push((name, e, *n as u32));
                none()
            }
            H::SChoice => {
                let base = self.cstr(st, &a[0], &a[1])?;
                let Val::C(n) = a[2] else { return err("symbolic choice bound") };
                let name = self.unique(st, &base);
                if n == 0 {
                    return err("empty choice");
                }
                for v in 1..n {
                    let mut o = st.clone();
                    o.choices.push((name.clone(), v));
                    Self::set(&mut o, c.dst, Val::C(v));
                    o.frames.last_mut().unwrap().ip += 1;
                    work.push(o);
                    self.forks += 1;
                }
                st.choices.push((name, 0));
                ok(Val::C(0))
            }
            H::SAssume => {
                let e = extract(a[0].e(self.aw(c, 0)?), 0, 1);
                if !self.assume(st, e) {
                    self.assumed += 1;
                    return Err(Stop::Dead);
                }
                none()
            }
            H::SAssert => {
                let e = extract(a[0].e(self.aw(c, 0)?), 0, 1);
                let l = self.cstr(st, &a[1], &a[2])?;
                *self.assert_labels.entry(l.clone()).or_insert(0) += 1;
                if !self.check_assert(st, e, &l) {
                    return Err(Stop::Dead);
                }
                none()
            }
            H::SReach => {
                let l = self.cstr(st, &a[0], &a[1])?;
                if !st.reach.contains(&l) {
                    st.reach.push(l);
                }
                none()
            }
            H::SCatch => {
                let f = self.conc(st, &a[0], 64, work)?;
                if f >> 32 != FN_WINDOW {
                    return err("catch: not a function");
                }
                let fi = ((f & 0xffff_ffff) / 16 - 1) as usize;
                let g: &'static Func = &self.prog.funcs[fi];
                self.enter(fi, g, st, c.dst, &c.ret, vec![a[1].clone()], true, work)?;
                Ok(HookRes::Entered)
            }
            H::SIsSym => ok(Val::C(1)),
            H::SKeep => ok(a[0].clone()),
            H::SDec => {
                // (value ptr, byte size, out, cap) -> digits written, 0 = concrete
                let p = self.conc(st, &a[0], 64, work)?;
                let n = self.conc(st, &a[1], 64, work)?;
                let o = self.conc(st, &a[2], 64, work)?;
                let cap = self.conc(st, &a[3], 64, work)?;
                let e = self.load_int(st, p, n, n as u32 * 8)?.e(n as u32 * 8);
                if is_const(e) {
                    return ok(Val::C(0));
                }
                self.note("JSON text of symbolic unsigned integers: fixed-width zero-padded decimal");
                let b = dec_bytes(e);
                if b.len() as u64 > cap {
                    return err("sym_dec buffer");
                }
                self.write_bytes(st, o, &b)?;
                ok(Val::C(b.len() as u64))
            }
            H::U256Mul | H::U256DivRem | H::U256Add | H::U256Sub => {
                // (sret, &a, &b)
                let o = self.conc(st, &a[0], 64, work)?;
                let p = self.conc(st, &a[1], 64, work)?;
                let q = self.conc(st, &a[2], 64, work)?;
                let x = self.load_int(st, p, 32, 256)?.e(256);
                let y = self.load_int(st, q, 32, 256)?.e(256);
                if is_const(x) && is_const(y) {
                    return Ok(HookRes::Fallthrough);
                }
                self.note("256-bit arithmetic (bnum BUint<4>) of symbolic values: one term");
                let le = |e: E| -> Vec<E> { (0..width(e) / 8).map(|i| extract(e, 8 * i, 8)).collect() };
                let b = if k == H::U256Add || k == H::U256Sub {
                    let (r, o) = if k == H::U256Add { (add(x, y), uaddo(x, y)) } else { (sub(x, y), ult(x, y)) };
                    let mut b = le(r);
                    b.push(zext(o, 8));
                    b
                } else if k == H::U256Mul {
                    let mut b = le(mul(x, y));
                    b.push(zext(umulo(x, y), 8));
                    b
                } else {
                    let mut b = le(udiv(x, y));
                    b.extend(le(urem(x, y)));
                    b
                };
                self.write_bytes(st, o, &b)?;
                none()
            }
            H::U256Zero | H::U256Cmp => {
                let p = self.conc(st, &a[0], 64, work)?;
                let x = self.load_int(st, p, 32, 256)?.e(256);
                if k == H::U256Zero {
                    return ok(Val::norm(eq(x, cst(256, 0))));
                }
                let q = self.conc(st, &a[1], 64, work)?;
                let y = self.load_int(st, q, 32, 256)?.e(256);
                ok(Val::norm(ite(ult(x, y), cst(8, 0xff), ite(eq(x, y), cst(8, 0), cst(8, 1)))))
            }
            H::U256Parse => {
                let p = self.conc(st, &a[0], 64, work)?;
                let n = self.conc(st, &a[1], 64, work)?;
                let o = self.conc(st, &a[2], 64, work)?;
                let Some(acc) = self.dec_value(st, p, n)? else { return ok(Val::C(0)) };
                let b: Vec<E> = (0..32).map(|i| extract(acc, 8 * i, 8)).collect();
                self.write_bytes(st, o, &b)?;
                ok(Val::C(1))
            }
            H::ParseU128 => {
                // (sret Result<u128, ParseIntError>, ptr, len, radix)
                if let (Val::C(n), Val::C(10)) = (&a[2], &a[3]) {
                    let o = self.conc(st, &a[0], 64, work)?;
                    let p = self.conc(st, &a[1], 64, work)?;
                    if let Some(x) = self.dec_value(st, p, *n)? {
                        self.note("u128::from_str of symbolic decimal text: recombined value, or overflow");
                        let fits = eq(extract(x, 128, 128), cst(128, 0));
                        let tag = ite(fits, cst(8, 0), cst(8, 1));
                        self.write_bytes(st, o, &[tag, cst(8, 2)])?;
                        let b: Vec<E> = (0..16).map(|i| extract(x, 8 * i, 8)).collect();
                        self.write_bytes(st, o + 16, &b)?;
                        return none();
                    }
                }
                Ok(HookRes::Fallthrough)
            }
            H::SPrint => {
                let (Val::C(p), Val::C(n)) = (&a[0], &a[1]) else { return none() };
                if std::env::var("RSYM_PRINT").is_ok() {
                    let b = self.read_bytes(st, *p, *n)?;
                    let mut s = String::new();
                    for x in b {
                        match cval(x) {
                            Some(c) if (32..127).contains(&c) => s.push(c as u8 as char),
                            Some(c) => s.push_str(&format!("\\x{c:02x}")),
                            None => s.push_str(&format!("<{}>", show(x, 2))),
                        }
                    }
                    eprintln!("[sym] {s}");
                }
                none()
            }
            // ---------------------------------------------------- summaries
            H::Keccak => {
                let p = self.conc(st, &a[0], 64, work)?;
                let n = self.conc(st, &a[1], 64, work)?;
                if n != 24 {
                    return err("keccak_p with unexpected round count");
                }
                self.note("keccak::keccak_p::<u64> (24 rounds): exact on concrete input; otherwise an uninterpreted, functionally consistent, collision-free permutation");
                let mut l = vec![];
                for i in 0..25 {
                    l.push(self.load_int(st, p + 8 * i, 8, 64)?.e(64));
                }
                let o = self.solver.keccak(l);
                for (i, e) in o.iter().enumerate() {
                    self.store(st, p + 8 * i as u64, 8, &Ty::Int(64), &Val::norm(*e))?;
                }
                none()
            }
            H::GetRandom => {
                let p = self.conc(st, &a[0], 64, work)?;
                let n = self.conc(st, &a[1], 64, work)?;
                self.write_bytes(st, p, &vec![cst(8, 0); n as usize])?;
                self.note("std HashMap/HashSet randomisation: keys fixed, every hash value equal (lookups compare all entries)");
                ok(Val::C(n))
            }
            H::SipFinish => ok(Val::C(0)),
            H::DispInt(w) => {
                let p = self.conc(st, &a[0], 64, work)?;
                let v = self.load_int(st, p, (w / 8) as u64, w)?;
                let e = v.e(w);
                if is_const(e) {
                    return Ok(HookRes::Fallthrough);
                }
                let Some(pi) = self.hookctx.pad_integral else { return err("Formatter::pad_integral missing") };
                self.note("Display of symbolic unsigned integers: fixed-width zero-padded decimal text");
                let b = dec_bytes(e);
                let (buf, _) = st.mem.alloc(b.len() as u64);
                self.write_bytes(st, buf, &b)?;
                let g: &'static Func = &self.prog.funcs[pi];
                // (self, is_nonnegative, prefix ptr, prefix len, buf ptr, buf len)
                let args = vec![a[1].clone(), Val::C(1), Val::C(buf), Val::C(0), Val::C(buf), Val::C(b.len() as u64)];
                self.enter(pi, g, st, c.dst, &c.ret, args, false, work)?;
                Ok(HookRes::Entered)
            }
            H::HexU8(up) => {
                let p = self.conc(st, &a[0], 64, work)?;
                let e = self.load_int(st, p, 1, 8)?.e(8);
                if is_const(e) {
                    return Ok(HookRes::Fallthrough);
                }
                let Some(pi) = self.hookctx.pad_integral else { return err("Formatter::pad_integral missing") };
                self.note("hexadecimal Display of symbolic bytes: two digits");
                let t: Vec<u64> = (if up { b"0123456789ABCDEF" } else { b"0123456789abcdef" }).iter().map(|x| *x as u64).collect();
                let mut b = vec![cst(8, b'0' as u64), cst(8, b'x' as u64)];
                b.push(table_apply(&t, 8, extract(e, 4, 4)));
                b.push(table_apply(&t, 8, extract(e, 0, 4)));
                let (buf, _) = st.mem.alloc(4);
                self.write_bytes(st, buf, &b)?;
                let g: &'static Func = &self.prog.funcs[pi];
                let args = vec![a[1].clone(), Val::C(1), Val::C(buf), Val::C(2), Val::C(buf + 2), Val::C(2)];
                self.enter(pi, g, st, c.dst, &c.ret, args, false, work)?;
                Ok(HookRes::Entered)
            }
            H::ToStrInt(w) => {
                // (sret String*, &int)
                let p = self.conc(st, &a[1], 64, work)?;
                let v = self.load_int(st, p, (w / 8) as u64, w)?;
                let e = v.e(w);
                if is_const(e) {
                    return Ok(HookRes::Fallthrough);
                }
                self.note("Display of symbolic unsigned integers: fixed-width zero-padded decimal text");
                let b = dec_bytes(e);
                let n = b.len() as u64;
                let (buf, _) = st.mem.alloc(n);
                self.write_bytes(st, buf, &b)?;
                let o = self.conc(st, &a[0], 64, work)?;
                // String = { capacity, pointer, length }
                for (i, x) in [n, buf, n].into_iter().enumerate() {
                    self.store(st, o + 8 * i as u64, 8, &Ty::Int(64), &Val::C(x))?;
                }
                none()
            }
            _ => err(format!("hook {k:?} not implemented")),
        }
    }
    fn aw(&self, c: &Call, i: usize) -> R<u32> {
        match c.atys[i] {
            Ty::Int(w) => Ok(w),
            _ => err("argument type"),
        }
    }
    /// best-effort rendering of a panic message (only for diagnostics)
    fn panic_msg(&self, st: &State, a: &[Val]) -> String {
        // &str style arguments
        if a.len() >= 2 {
            if let (Val::C(p), Val::C(n)) = (&a[0], &a[1]) {
                if *n < 400 && *p >> 32 >= GLOB_BASE {
                    if let Ok(Some(b)) = self.read_conc(st, *p, *n) {
                        if let Ok(s) = String::from_utf8(b) {
                            return format!("\"{s}\"");
                        }
                    }
                }
            }
        }
        String::new()
    }
}
