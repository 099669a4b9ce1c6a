//! Hash-consed bit-vector expression DAG with a canonicalising constructor per
//! operation.  All expressions are bit-vectors; predicates have width 1.
//!
//! Two non-standard node kinds keep byte-oriented code tractable:
//!  * Table(s, T): a function of one node `s` of width <= 8, given by its table;
//!  * Digit(e, i): the i-th decimal digit of `e` (width 8, value 0..=9).
use crate::bits::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Extract,
    Concat,
    SExt,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Ite,
    Eq,
    Ult,
    Slt,
    Table,
    Digit,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub wide: Vec<Bits>,
    wide_map: HashMap<Bits, u32>,
    pub tables: Vec<Rc<Vec<u64>>>,
    table_map: HashMap<Rc<Vec<u64>>, u32>,
    pub vars: Vec<(String, u32)>,
    var_map: HashMap<String, E>,
    pub tsrc: Vec<u32>, // cached tab_src+2 (0 = not computed, 1 = none, 2.. = src)
    range: FxMap<E, (u128, u128)>,
    support: FxMap<E, Rc<Vec<u32>>>,
    axf: FxMap<E, bool>,
    sbits: FxMap<E, Rc<Vec<(E, u32)>>>,
    aff: FxMap<E, Rc<Vec<Aff>>>,
    memo: FxMap<(u64, u64), E>,
    tmemo: FxMap<(E, u32, Vec<u64>), E>,
    cmemo: FxMap<(E, E), Rc<Vec<u64>>>,
    pub pow10: Vec<Bits>, // 320-bit powers of ten
    /// hash output variable -> permutation input lanes
    pub hash_in: FxMap<E, Rc<Vec<E>>>,
    /// leading 256 output bits of concrete hash applications -> input lanes
    pub hash_const: HashMap<Bits, Rc<Vec<E>>>,
}

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
#[inline]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            let mut p = vec![];
            let mut x = Bits::from_u64(320, 1);
            for _ in 0..96 {
                p.push(x.clone());
                x = x.mul(&Bits::from_u64(320, 10), 320);
            }
            CTX = Some(Ctx {
                nodes: vec![],
                map: Default::default(),
                wide: vec![],
                wide_map: HashMap::new(),
                tables: vec![],
                table_map: HashMap::new(),
                vars: vec![],
                var_map: HashMap::new(),
                tsrc: vec![],
                range: Default::default(),
                support: Default::default(),
                axf: Default::default(),
                sbits: Default::default(),
                aff: Default::default(),
                memo: Default::default(),
                tmemo: Default::default(),
                cmemo: Default::default(),
                hash_in: Default::default(), hash_const: HashMap::new(), pow10: p,
            });
        }
        CTX.as_mut().unwrap()
    }
}

#[inline]
pub fn node(e: E) -> Node {
    cx().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u32 {
    node(e).w
}

fn mk(op: Op, w: u32, a: u32, b: u32, c: u32) -> E {
    debug_assert!(w > 0);
    let n = Node { op, w, a, b, c };
    let x = cx();
    if let Some(e) = x.map.get(&n) {
        return *e;
    }
    let e = x.nodes.len() as E;
    x.nodes.push(n);
    x.tsrc.push(0);
    x.map.insert(n, e);
    e
}

pub fn cst(w: u32, v: u64) -> E {
    if w <= 64 {
        let v = v & mask(w);
        mk(Op::Const, w, v as u32, (v >> 32) as u32, 0)
    } else {
        cbits(w, &Bits::from_u64(w, v))
    }
}
pub fn cbits(w: u32, b: &Bits) -> E {
    if w <= 64 {
        return cst(w, b.u64());
    }
    let x = cx();
    let i = match x.wide_map.get(b) {
        Some(i) => *i,
        None => {
            let i = x.wide.len() as u32;
            x.wide.push(b.clone());
            x.wide_map.insert(b.clone(), i);
            i
        }
    };
    mk(Op::Const, w, i, 0, 0)
}
pub fn c128(w: u32, v: u128) -> E {
    cbits(w, &Bits::from_u128(w, v))
}
#[inline]
pub fn is_const(e: E) -> bool {
    node(e).op == Op::Const
}
pub fn const_bits(e: E) -> Option<Bits> {
    let n = node(e);
    if n.op != Op::Const {
        return None;
    }
    Some(if n.w <= 64 { Bits::S(n.a as u64 | (n.b as u64) << 32) } else { cx().wide[n.a as usize].clone() })
}
/// constant of width <= 64
#[inline]
pub fn cval(e: E) -> Option<u64> {
    let n = node(e);
    if n.op == Op::Const && n.w <= 64 {
        Some(n.a as u64 | (n.b as u64) << 32)
    } else {
        None
    }
}
pub fn tru() -> E {
    cst(1, 1)
}
pub fn fls() -> E {
    cst(1, 0)
}
fn is_zero(e: E) -> bool {
    is_const(e) && const_bits(e).unwrap().is_zero()
}
fn is_ones(e: E) -> bool {
    is_const(e) && const_bits(e).unwrap() == Bits::ones(width(e))
}

pub fn var(name: &str, w: u32) -> E {
    let x = cx();
    if let Some(e) = x.var_map.get(name) {
        assert_eq!(width(*e), w, "variable {name} reused with another width");
        return *e;
    }
    let i = x.vars.len() as u32;
    x.vars.push((name.to_string(), w));
    let e = mk(Op::Var, w, i, 0, 0);
    x.var_map.insert(name.to_string(), e);
    e
}

// ---------------------------------------------------------------- tables

const NONE: u32 = 1;
/// If `e` is a function of at most 8 symbolic bits, return the source node
/// that collects them (a node of width <= 8 in canonical bit order, or a
/// decimal digit).
pub fn tab_src(e: E) -> Option<E> {
    let c = cx().tsrc[e as usize];
    if c != 0 {
        return if c == NONE { None } else { Some(c - 2) };
    }
    let n = node(e);
    let r = match n.op {
        Op::Const => None,
        Op::Table => Some(n.a),
        Op::Digit => Some(e),
        Op::Extract if node(n.a).op == Op::Digit => Some(n.a),
        Op::Xor if n.w == 1 && is_ones(n.b) => tab_src(n.a),
        Op::Ite if is_const(n.b) && is_const(n.c) && n.w <= 64 => tab_src(n.a),
        Op::Concat => {
            let mut src: Option<E> = None;
            let mut ok = n.w <= 64;
            if ok {
                for p in pieces(e) {
                    if is_const(p) {
                        continue;
                    }
                    src = match (tab_src(p), src) {
                        (None, _) => None,
                        (Some(s), None) => Some(s),
                        (Some(s), Some(t)) => union_src(s, t),
                    };
                    if src.is_none() {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                src
            } else if n.w <= 64 {
                nonconst(e).or(if n.w <= 8 { Some(e) } else { None })
            } else {
                None
            }
        }
        _ if n.w <= 8 => Some(e),
        _ => None,
    };
    cx().tsrc[e as usize] = match r {
        None => NONE,
        Some(s) => s + 2,
    };
    r
}
/// the (base node, bit) pairs of a source, least significant first
fn bits_of(s: E) -> Rc<Vec<(E, u32)>> {
    if let Some(r) = cx().sbits.get(&s) {
        return r.clone();
    }
    let mut v = vec![];
    for p in pieces(s).into_iter().rev() {
        let n = node(p);
        for i in 0..n.w {
            v.push(if n.op == Op::Extract { (n.a, n.b + i) } else { (p, i) });
        }
    }
    let r = Rc::new(v);
    cx().sbits.insert(s, r.clone());
    r
}
/// canonical source made of a sorted list of bits (least significant first)
fn from_bits(v: &[(E, u32)]) -> E {
    let mut p = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i + 1;
        while j < v.len() && v[j].0 == v[i].0 && v[j].1 == v[j - 1].1 + 1 {
            j += 1;
        }
        p.push(extract(v[i].0, v[i].1, (j - i) as u32));
        i = j;
    }
    p.reverse();
    concat_all(&p)
}
fn union_src(a: E, b: E) -> Option<E> {
    if a == b {
        return Some(a);
    }
    if node(a).op == Op::Digit || node(b).op == Op::Digit {
        return None;
    }
    let (x, y) = (bits_of(a), bits_of(b));
    let mut v: Vec<(E, u32)> = x.iter().chain(y.iter()).copied().collect();
    v.sort();
    v.dedup();
    if v.len() > 8 {
        return None;
    }
    let s = from_bits(&v);
    if s != a && s != b && (is_const(s) || *bits_of(s) != v) {
        return None;
    }
    Some(s)
}
/// positions of the bits of `sub` inside source `s`
fn project_map(s: E, sub: E) -> Vec<u32> {
    let (x, y) = (bits_of(s), bits_of(sub));
    y.iter().map(|b| x.iter().position(|c| c == b).expect("projection") as u32).collect()
}
#[inline]
fn project(m: &[u32], v: u64) -> u64 {
    let mut r = 0;
    for (i, p) in m.iter().enumerate() {
        r |= (v >> p & 1) << i;
    }
    r
}
/// concatenation of the non-constant pieces of a Concat, if at most 8 bits
fn nonconst(e: E) -> Option<E> {
    let p: Vec<E> = pieces(e).into_iter().filter(|x| !is_const(*x)).collect();
    let n: u32 = p.iter().map(|x| width(*x)).sum();
    if n == 0 || n > 8 {
        return None;
    }
    let s = concat_all(&p);
    if is_const(s) || width(s) != n || node(s).op == Op::Digit || node(s).op == Op::Table {
        return None;
    }
    // must be usable as a source: distinct bits in canonical order
    let b = bits_of(s);
    if b.windows(2).any(|w| w[0] >= w[1]) {
        return None;
    }
    if s != e && tab_src(s) != Some(s) {
        return None;
    }
    Some(s)
}
/// domain size of a table source
pub fn dom(s: E) -> usize {
    let n = node(s);
    if n.op == Op::Digit {
        10
    } else {
        1 << n.w
    }
}
/// value of tabular expression e (w<=64) when its source s has value v; `s`
/// may also be a source containing the source of e
fn tab_eval(e: E, s: E, v: u64) -> u64 {
    if e == s {
        return v;
    }
    let n = node(e);
    if n.op == Op::Const {
        return cval(e).unwrap();
    }
    let s0 = tab_src(e).expect("tab_eval: not tabular");
    let v = if s0 == s { v } else { project(&project_map(s, s0), v) };
    if e == s0 {
        return v;
    }
    match n.op {
        Op::Extract => tab_eval(n.a, s0, v) >> n.b & mask(n.w),
        Op::Xor => 1 ^ tab_eval(n.a, s0, v),
        Op::Table => cx().tables[n.b as usize][v as usize],
        Op::Concat if nonconst(e) == Some(s0) => {
            let mut left = width(s0);
            let mut r = 0u64;
            for p in pieces(e) {
                let w = width(p);
                let x = match cval(p) {
                    Some(c) => c,
                    None => {
                        left -= w;
                        v >> left & mask(w)
                    }
                };
                r = if w >= 64 { x } else { r << w | x };
            }
            r
        }
        Op::Concat => {
            let mut r = 0u64;
            for p in pieces(e) {
                let w = width(p);
                let x = tab_eval(p, s0, v);
                r = if w >= 64 { x } else { r << w | x };
            }
            r
        }
        Op::Ite => {
            if tab_eval(n.a, s0, v) == 1 {
                cval(n.b).unwrap()
            } else {
                cval(n.c).unwrap()
            }
        }
        _ => unreachable!("tab_eval {:?}", n),
    }
}
/// common table source of the args, if the args are all constants or tabular
/// over jointly at most 8 bits
fn common_src(args: &[E]) -> Option<E> {
    let mut src = None;
    for &a in args {
        if width(a) > 64 {
            return None;
        }
        if is_const(a) {
            continue;
        }
        src = match (tab_src(a), src) {
            (None, _) => return None,
            (Some(s), None) => Some(s),
            (Some(s), Some(t)) => {
                // only merge when one source contains the other
                let u = union_src(s, t)?;
                if u != s && u != t {
                    return None;
                }
                Some(u)
            }
        };
    }
    src
}
pub fn mk_table(s: E, w: u32, t: Vec<u64>) -> E {
    let k = (s, w, t);
    if let Some(r) = cx().tmemo.get(&k) {
        return *r;
    }
    let r = mk_table_canon(s, w, k.2.clone());
    cx().tmemo.insert(k, r);
    r
}
fn mk_table_canon(s: E, w: u32, t: Vec<u64>) -> E {
    debug_assert_eq!(t.len(), dom(s));
    if t.iter().all(|x| *x == t[0]) {
        return cst(w, t[0]);
    }
    if node(s).op != Op::Digit {
        // canonical source: sorted distinct bits, all of them relevant
        let b = bits_of(s);
        let n = b.len();
        let mut keep: Vec<usize> = (0..n).filter(|i| (0..t.len()).any(|v| v >> i & 1 == 0 && t[v] != t[v | 1 << i])).collect();
        let mut sorted = keep.clone();
        sorted.sort_by_key(|i| b[*i]);
        let dup = sorted.windows(2).any(|w| b[w[0]] == b[w[1]]);
        if (keep.len() != n || sorted != keep) && !dup {
            keep = sorted;
            let nb: Vec<(E, u32)> = keep.iter().map(|i| b[*i]).collect();
            let s2 = from_bits(&nb);
            if !is_const(s2) && node(s2).op != Op::Digit && *bits_of(s2) == nb {
                let mut t2 = Vec::with_capacity(1 << keep.len());
                for v in 0..1usize << keep.len() {
                    let mut x = 0;
                    for (j, i) in keep.iter().enumerate() {
                        x |= (v >> j & 1) << i;
                    }
                    t2.push(t[x]);
                }
                return mk_table_raw(s2, w, t2);
            }
        }
    }
    mk_table_raw(s, w, t)
}
fn mk_table_raw(s: E, w: u32, t: Vec<u64>) -> E {
    let m = t.iter().fold(0, |a, b| a | b);
    let k = 64 - m.leading_zeros();
    let sw = width(s);
    if t.iter().enumerate().all(|(i, x)| *x == i as u64) {
        // identity on the domain
        return if w >= sw { zext(s, w) } else { extract(s, 0, w) };
    }
    if k < w {
        let lo = mk_table(s, k, t);
        return concat(cst(w - k, 0), lo);
    }
    if sw == 1 {
        // functions of a predicate are plain ites / negation
        if w == 1 {
            return mk(Op::Xor, 1, s, tru(), 0);
        }
        return mk(Op::Ite, w, s, cst(w, t[1]), cst(w, t[0]));
    }
    let x = cx();
    let rc = Rc::new(t);
    let i = match x.table_map.get(&rc) {
        Some(i) => *i,
        None => {
            let i = x.tables.len() as u32;
            x.tables.push(rc.clone());
            x.table_map.insert(rc, i);
            i
        }
    };
    mk(Op::Table, w, s, i, 0)
}
fn tab_op(w: u32, args: &[E], f: impl Fn(&[u64]) -> u64) -> Option<E> {
    if w > 64 {
        return None;
    }
    let s = common_src(args)?;
    let d = dom(s) as u64;
    let cols: Vec<Rc<Vec<u64>>> = args.iter().map(|a| tab_column(*a, s)).collect();
    let mut t = Vec::with_capacity(d as usize);
    let mut vals = [0u64; 3];
    for v in 0..d as usize {
        for (k, c) in cols.iter().enumerate() {
            vals[k] = if c.len() == 1 { c[0] } else { c[v] };
        }
        t.push(f(&vals[..args.len()]) & mask(w));
    }
    Some(mk_table(s, w, t))
}
/// all values of e over the domain of s (a single entry for constants)
fn tab_column(e: E, s: E) -> Rc<Vec<u64>> {
    if let Some(r) = cx().cmemo.get(&(e, s)) {
        return r.clone();
    }
    let r = Rc::new(tab_column_raw(e, s));
    cx().cmemo.insert((e, s), r.clone());
    r
}
fn tab_column_raw(e: E, s: E) -> Vec<u64> {
    if let Some(c) = cval(e) {
        return vec![c];
    }
    let d = dom(s) as u64;
    if e == s {
        return (0..d).collect();
    }
    let s0 = tab_src(e).unwrap();
    let d0 = dom(s0) as u64;
    let base: Vec<u64> = match node(e).op {
        Op::Table => cx().tables[node(e).b as usize].to_vec(),
        _ => (0..d0).map(|v| tab_eval(e, s0, v)).collect(),
    };
    if s0 == s {
        return base;
    }
    let m = project_map(s, s0);
    (0..d).map(|v| base[project(&m, v) as usize]).collect()
}

// ---------------------------------------------------------------- memoised constructors

pub fn extract(e: E, lo: u32, w: u32) -> E {
    let k = ((1 << 32) | e as u64, (lo as u64) << 32 | w as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = extract_raw(e, lo, w);
    cx().memo.insert(k, r);
    r
}
pub fn concat(hi: E, lo: E) -> E {
    let k = ((2 << 32) | hi as u64, (lo as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = concat_raw(hi, lo);
    cx().memo.insert(k, r);
    r
}
pub fn add(a: E, b: E) -> E {
    let k = ((3 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = add_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn sub(a: E, b: E) -> E {
    let k = ((4 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = sub_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn mul(a: E, b: E) -> E {
    let k = ((5 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = mul_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn udiv(a: E, b: E) -> E {
    let k = ((6 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = udiv_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn urem(a: E, b: E) -> E {
    let k = ((7 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = urem_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn shl(a: E, b: E) -> E {
    let k = ((8 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = shl_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn lshr(a: E, b: E) -> E {
    let k = ((9 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = lshr_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn ashr(a: E, b: E) -> E {
    let k = ((10 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = ashr_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn ite(c: E, a: E, b: E) -> E {
    let k = ((11 << 32) | c as u64, (a as u64) << 32 | b as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = ite_raw(c, a, b);
    cx().memo.insert(k, r);
    r
}
pub fn eq(a: E, b: E) -> E {
    let k = ((12 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = eq_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn ult(a: E, b: E) -> E {
    let k = ((13 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = ult_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn slt(a: E, b: E) -> E {
    let k = ((14 << 32) | a as u64, (b as u64) << 32 | 0u32 as u64);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = slt_raw(a, b);
    cx().memo.insert(k, r);
    r
}
pub fn bitop(op: Op, a: E, b: E) -> E {
    let k = ((40 + op as u64) << 32 | a as u64, (b as u64) << 32);
    if let Some(r) = cx().memo.get(&k) {
        return *r;
    }
    let r = bitop_raw(op, a, b);
    cx().memo.insert(k, r);
    r
}

// ---------------------------------------------------------------- structure

/// pieces from most significant to least significant
pub fn pieces(e: E) -> Vec<E> {
    let mut v = vec![];
    let mut cur = e;
    loop {
        let n = node(cur);
        if n.op == Op::Concat {
            v.push(n.a);
            cur = n.b;
        } else {
            v.push(cur);
            return v;
        }
    }
}

fn fuse(hi: E, lo: E) -> Option<E> {
    let (h, l) = (node(hi), node(lo));
    if h.op == Op::Const && l.op == Op::Const {
        return Some(cbits(h.w + l.w, &Bits::concat(&const_bits(hi).unwrap(), h.w, &const_bits(lo).unwrap(), l.w)));
    }
    if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.b == l.b + l.w {
        return Some(extract(h.a, l.b, h.w + l.w));
    }
    let w = h.w + l.w;
    if w <= 64 && h.op != Op::Const && l.op != Op::Const && (h.op == Op::Table || l.op == Op::Table) {
        if let (Some(sh), Some(sl)) = (tab_src(hi), tab_src(lo)) {
            if let Some(u) = union_src(sh, sl) {
                if u == sh || u == sl {
                    let (a, b) = (tab_column(hi, u), tab_column(lo, u));
                    let t = a.iter().zip(b.iter()).map(|(a, b)| a << l.w | b).collect();
                    return Some(mk_table(u, w, t));
                }
            }
        }
    }
    if h.op == Op::Ite
        && l.op == Op::Ite
        && h.a == l.a
        && [h.b, h.c, l.b, l.c].iter().all(|x| is_const(*x))
    {
        return Some(ite(h.a, concat(h.b, l.b), concat(h.c, l.c)));
    }
    if h.op == Op::Ite && l.op == Op::Const && is_const(h.b) && is_const(h.c) && false {
        return Some(ite(h.a, concat(h.b, lo), concat(h.c, lo)));
    }
    None
}

fn concat_raw(hi: E, lo: E) -> E {
    // hi may itself be a concat: re-nest to the right
    let h = node(hi);
    if h.op == Op::Concat {
        return concat(h.a, concat(h.b, lo));
    }
    let l = node(lo);
    if l.op == Op::Concat {
        if let Some(f) = fuse(hi, l.a) {
            return concat(f, l.b);
        }
    } else if let Some(f) = fuse(hi, lo) {
        return f;
    }
    mk(Op::Concat, h.w + l.w, hi, lo, 0)
}
pub fn concat_all(p: &[E]) -> E {
    let mut r = *p.last().unwrap();
    for x in p[..p.len() - 1].iter().rev() {
        r = concat(*x, r);
    }
    r
}
pub fn zext(e: E, w: u32) -> E {
    let ew = width(e);
    if ew == w {
        e
    } else {
        concat(cst(w - ew, 0), e)
    }
}
pub fn sext(e: E, w: u32) -> E {
    let ew = width(e);
    if ew == w {
        return e;
    }
    if let Some(b) = const_bits(e) {
        return cbits(w, &b.sext(ew, w));
    }
    if let Some(r) = tab_op(w, &[e], |v| Bits::S(v[0]).sext(ew, w).u64()) {
        return r;
    }
    let n = node(e);
    if n.op == Op::Concat && is_const(n.a) {
        let cb = const_bits(n.a).unwrap();
        let hw = width(n.a);
        return concat(cbits(hw + w - ew, &cb.sext(hw, hw + w - ew)), n.b);
    }
    if n.op == Op::SExt {
        return sext(n.a, w);
    }
    mk(Op::SExt, w, e, 0, 0)
}
pub fn resize(e: E, w: u32) -> E {
    let ew = width(e);
    if ew == w {
        e
    } else if w > ew {
        zext(e, w)
    } else {
        extract(e, 0, w)
    }
}

fn extract_raw(e: E, lo: u32, w: u32) -> E {
    let n = node(e);
    debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
    if w == n.w {
        return e;
    }
    match n.op {
        Op::Const => return cbits(w, &const_bits(e).unwrap().extract(lo, w)),
        Op::Extract => return extract(n.a, n.b + lo, w),
        Op::Concat => {
            let wl = width(n.b);
            if lo + w <= wl {
                return extract(n.b, lo, w);
            }
            if lo >= wl {
                return extract(n.a, lo - wl, w);
            }
            let l = extract(n.b, lo, wl - lo);
            let h = extract(n.a, 0, w - (wl - lo));
            return concat(h, l);
        }
        Op::SExt => {
            let aw = width(n.a);
            if lo + w <= aw {
                return extract(n.a, lo, w);
            }
            if lo < aw {
                return sext(extract(n.a, lo, aw - lo), w);
            }
            let top = extract(n.a, aw - 1, 1);
            return sext(top, w);
        }
        Op::Table => {
            let t = cx().tables[n.b as usize].clone();
            return mk_table(n.a, w, t.iter().map(|x| x >> lo & mask(w)).collect());
        }
        Op::Ite => {
            if is_const(n.b) || is_const(n.c) || cheap_extract(n.b) && cheap_extract(n.c) {
                let b = extract(n.b, lo, w);
                let c = extract(n.c, lo, w);
                return ite(n.a, b, c);
            }
        }
        Op::And | Op::Or | Op::Xor => {
            if is_const(n.b) || node(n.a).op == Op::Concat || node(n.b).op == Op::Concat {
                let a = extract(n.a, lo, w);
                let b = extract(n.b, lo, w);
                return bitop(n.op, a, b);
            }
        }
        Op::Sub if n.w >= 128 && {
            let m = sig(strip(n.a)).max(sig(strip(n.b)));
            m < n.w && (lo >= m || lo == 0 && w >= m)
        } =>
        {
            let m = sig(strip(n.a)).max(sig(strip(n.b)));
            if lo == 0 {
                return sub(extract(n.a, 0, w), extract(n.b, 0, w));
            }
            // all ones exactly when the difference is negative
            return sext(ult(extract(n.a, 0, m), extract(n.b, 0, m)), w);
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            // only when the narrowed operands are both tabular (low digit arithmetic)
            if w <= 8 && n.w <= 64 {
                let a = extract(n.a, 0, w);
                let b = extract(n.b, 0, w);
                if is_const(a) || is_const(b) {
                    if let (true, _) | (_, true) = (is_zero(a), is_zero(b)) {
                        return match n.op {
                            Op::Add => add(a, b),
                            Op::Sub => sub(a, b),
                            _ => mul(a, b),
                        };
                    }
                }
            }
        }
        Op::URem | Op::UDiv => {
            // high bits that are provably zero
            let (_, h) = range(e);
            if n.w <= 128 {
                let bl = 128 - h.leading_zeros();
                if lo >= bl {
                    return cst(w, 0);
                }
            }
        }
        Op::Digit => {
            if lo >= 4 {
                return cst(w, 0);
            }
        }
        _ => {}
    }
    if n.w <= 8 {
        // slices of small nodes other than vars are tables over the node
        if !matches!(n.op, Op::Var | Op::Extract | Op::Concat | Op::Xor | Op::And | Op::Or) {
            if n.op == Op::Digit {
                let t: Vec<u64> = (0..10u64).map(|x| x >> lo & mask(w)).collect();
                // identity slices stay as extracts
                if lo == 0 && w >= 4 {
                    return mk(Op::Extract, w, e, lo, 0);
                }
                return mk_table(e, w, t);
            }
        }
    }
    mk(Op::Extract, w, e, lo, 0)
}
fn cheap_extract(e: E) -> bool {
    matches!(node(e).op, Op::Const | Op::Concat | Op::Var | Op::Extract | Op::Table)
}

// ---------------------------------------------------------------- intervals

/// unsigned interval of e (valid for widths <= 128; wider: only the fact that
/// it fits in 128 bits can be expressed, otherwise (0, MAX))
pub fn range(e: E) -> (u128, u128) {
    let n = node(e);
    if let Some(r) = cx().range.get(&e) {
        return *r;
    }
    let full = if n.w >= 128 { u128::MAX } else { (1u128 << n.w) - 1 };
    let r = match n.op {
        Op::Const => {
            let b = const_bits(e).unwrap();
            if b.fits128() {
                (b.u128(), b.u128())
            } else {
                (u128::MAX, u128::MAX)
            }
        }
        Op::Concat if n.w <= 128 || is_zero(n.a) => {
            let (al, ah) = range(n.a);
            let (bl, bh) = range(n.b);
            let s = width(n.b);
            if al == 0 && ah == 0 {
                (bl, bh)
            } else {
                (al << s | bl, ah << s | bh)
            }
        }
        Op::Table => {
            let t = &cx().tables[n.b as usize];
            (*t.iter().min().unwrap() as u128, *t.iter().max().unwrap() as u128)
        }
        Op::Digit => (0, 9),
        Op::Extract if n.b == 0 && n.w <= 128 => {
            let (l, h) = range(n.a);
            if width(n.a) <= 128 && h <= full {
                (l, h)
            } else {
                (0, full)
            }
        }
        Op::Add if n.w <= 128 => {
            let (al, ah) = range(n.a);
            let (bl, bh) = range(n.b);
            match ah.checked_add(bh) {
                Some(h) if h <= full => (al + bl, h),
                _ => (0, full),
            }
        }
        Op::Mul if n.w <= 128 => {
            let (al, ah) = range(n.a);
            let (bl, bh) = range(n.b);
            match ah.checked_mul(bh) {
                Some(h) if h <= full => (al * bl, h),
                _ => (0, full),
            }
        }
        Op::Sub if n.w <= 128 => {
            let (al, ah) = range(n.a);
            let (bl, bh) = range(n.b);
            if al >= bh {
                (al - bh, ah - bl)
            } else {
                (0, full)
            }
        }
        Op::UDiv if n.w <= 128 => {
            let (al, ah) = range(n.a);
            let (bl, bh) = range(n.b);
            if bl > 0 {
                (al / bh, ah / bl)
            } else {
                (0, full)
            }
        }
        Op::URem if n.w <= 128 => {
            let (_, ah) = range(n.a);
            let (bl, bh) = range(n.b);
            if bl > 0 {
                (0, ah.min(bh - 1))
            } else {
                (0, full)
            }
        }
        Op::And if n.w <= 128 => {
            let (_, ah) = range(n.a);
            let (_, bh) = range(n.b);
            (0, ah.min(bh))
        }
        Op::LShr if n.w <= 128 => (0, range(n.a).1),
        Op::Ite if n.w <= 128 => {
            let (al, ah) = range(n.b);
            let (bl, bh) = range(n.c);
            (al.min(bl), ah.max(bh))
        }
        _ => (0, full),
    };
    cx().range.insert(e, r);
    r
}
pub fn range_ok(e: E) -> bool {
    let n = node(e);
    if n.op == Op::Const {
        return const_bits(e).unwrap().fits128();
    }
    n.w <= 128 || (n.op == Op::Concat && is_zero(n.a) && n.w - width(n.a) <= 128)
}

// ---------------------------------------------------------------- decimal digits

/// e = base / 10^i ?
fn as_quot(e: E) -> Option<(E, u32)> {
    let n = node(e);
    if n.op == Op::Concat && is_zero(n.a) {
        return as_quot_inner(n.b);
    }
    as_quot_inner(e)
}
fn log10(b: &Bits, w: u32) -> Option<u32> {
    for (i, p) in cx().pow10.iter().enumerate() {
        let q = p.extract(0, w);
        if q == *b {
            if w < 320 && !p.extract(w, 320 - w).is_zero() {
                return None;
            }
            return Some(i as u32);
        }
    }
    None
}
fn as_quot_inner(e: E) -> Option<(E, u32)> {
    let n = node(e);
    match n.op {
        Op::UDiv => {
            let b = const_bits(n.b)?;
            let i = log10(&b, n.w)?;
            Some((strip(n.a), i))
        }
        Op::Digit => {
            let (b, i) = (n.a, n.b);
            // top digit: base / 10^i < 10
            if top_digit(b, i) {
                Some((b, i))
            } else {
                None
            }
        }
        Op::Extract if n.b == 0 && n.w >= 4 && node(n.a).op == Op::Digit => as_quot_inner(n.a),
        // an extract that only drops zero bits of a quotient
        Op::Extract if n.b == 0 && n.w < 128 && node(n.a).op == Op::UDiv && range_ok(n.a) && range(n.a).1 >> n.w == 0 => {
            as_quot_inner(n.a)
        }
        _ => Some((e, 0)),
    }
}
fn top_digit(base: E, i: u32) -> bool {
    let w = width(base);
    if w > 256 {
        return false;
    }
    let hi = max_bits(base).extract_or_pad(320);
    hi.ult(&cx().pow10[i as usize + 1])
}
impl Bits {
    pub fn extract_or_pad(&self, w: u32) -> Bits {
        let mut l = self.limbs();
        l.resize(nl(w), 0);
        Bits::norm(w, l)
    }
}
fn max_bits(e: E) -> Bits {
    let w = width(e);
    if w <= 128 {
        Bits::from_u128(w, range(e).1)
    } else {
        Bits::ones(w)
    }
}
/// remove a zero-extension
pub fn strip(e: E) -> E {
    let n = node(e);
    if n.op == Op::Concat && is_zero(n.a) {
        n.b
    } else {
        e
    }
}
/// e is zext(Digit) ?
fn as_digit(e: E) -> Option<(E, u32)> {
    let s = strip(e);
    let n = node(s);
    if n.op == Op::Digit {
        return Some((n.a, n.b));
    }
    if n.op == Op::Extract && n.b == 0 && n.w >= 4 {
        let m = node(n.a);
        if m.op == Op::Digit {
            return Some((m.a, m.b));
        }
    }
    None
}
/// i-th decimal digit of e, as an 8-bit value
pub fn digit(e: E, i: u32) -> E {
    let e = strip(e);
    if let Some(b) = const_bits(e) {
        let w = width(e).max(8) + 8;
        let b = b.extract_or_pad(w);
        let p = &cx().pow10[i as usize];
        if !p.extract(w.min(320), 320 - w.min(320).min(319)).is_zero() && w < 320 {
            return cst(8, 0);
        }
        let (q, _) = b.udivrem(&p.extract(0, w), w);
        let (_, r) = q.udivrem(&Bits::from_u64(w, 10), w);
        return cst(8, r.u64());
    }
    // digit of a quotient
    let n = node(e);
    if n.op == Op::UDiv {
        if let Some((b, j)) = as_quot_inner(e) {
            if b != e {
                return digit(b, i + j);
            }
        }
    }
    if max_bits(e).extract_or_pad(320).ult(&cx().pow10[i as usize]) {
        return cst(8, 0);
    }
    if width(e) <= 8 {
        let p = 10u64.checked_pow(i).unwrap_or(u64::MAX);
        return zext(urem(udiv(zext(e, 8), cst(8, p)), cst(8, 10)), 8);
    }
    mk(Op::Digit, 8, e, i, 0)
}

// ---------------------------------------------------------------- bitwise

pub fn not(e: E) -> E {
    bitop(Op::Xor, e, cbits(width(e), &Bits::ones(width(e))))
}
pub fn and(a: E, b: E) -> E {
    bitop(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bitop(Op::Or, a, b)
}
pub fn xor(a: E, b: E) -> E {
    bitop(Op::Xor, a, b)
}
fn as_not(e: E) -> Option<E> {
    let n = node(e);
    if n.op == Op::Xor && is_ones(n.b) {
        Some(n.a)
    } else {
        None
    }
}

/// split the bits of a constant into runs of equal bits: (lo, width, bit)
fn runs(b: &Bits, w: u32, limit: usize) -> Option<Vec<(u32, u32, bool)>> {
    let mut v: Vec<(u32, u32, bool)> = vec![];
    for i in 0..w {
        let x = b.bit(i);
        match v.last_mut() {
            Some(l) if l.2 == x => l.1 += 1,
            _ => {
                if v.len() >= limit {
                    return None;
                }
                v.push((i, 1, x))
            }
        }
    }
    Some(v)
}

fn piece_bounds(e: E) -> Vec<u32> {
    // ascending list of boundaries (bit offsets), excluding 0
    let p = pieces(e);
    let mut v = vec![];
    let mut o = 0;
    for x in p.iter().rev() {
        o += width(*x);
        v.push(o);
    }
    v
}

fn bitop_raw(op: Op, a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "bitop width");
    let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
    if let (Some(x), Some(y)) = (const_bits(a), const_bits(b)) {
        let r = match op {
            Op::And => x.map2(&y, w, |p, q| p & q),
            Op::Or => x.map2(&y, w, |p, q| p | q),
            _ => x.map2(&y, w, |p, q| p ^ q),
        };
        return cbits(w, &r);
    }
    if a == b {
        return if op == Op::Xor { cst(w, 0) } else { a };
    }
    if is_const(b) {
        if is_zero(b) {
            return if op == Op::And { b } else { a };
        }
        if is_ones(b) {
            match op {
                Op::And => return a,
                Op::Or => return b,
                _ => {
                    if let Some(x) = as_not(a) {
                        return x;
                    }
                }
            }
        }
    }
    if let Some(r) = tab_op(w, &[a, b], |v| match op {
        Op::And => v[0] & v[1],
        Op::Or => v[0] | v[1],
        _ => v[0] ^ v[1],
    }) {
        return r;
    }
    if w == 1 {
        // x & !x, x | !x
        if as_not(a) == Some(b) || as_not(b) == Some(a) {
            return cst(1, if op == Op::And { 0 } else { 1 });
        }
        // absorption with a nested conjunction/disjunction
        for (x, y) in [(a, b), (b, a)] {
            let n = node(x);
            if n.op == op && op != Op::Xor {
                if n.a == y || n.b == y {
                    return x;
                }
            }
        }
    }
    let (na, nb) = (node(a), node(b));
    // associativity with constants
    if nb.op == Op::Const && na.op == op && is_const(na.b) {
        return bitop(op, na.a, bitop(op, na.b, b));
    }
    if w > 1 {
        // piecewise with constant masks
        let mut bounds: Option<Vec<u32>> = None;
        if nb.op == Op::Const && op != Op::Xor {
            if let Some(r) = runs(&const_bits(b).unwrap(), w, if na.op == Op::Concat { 64 } else { 8 }) {
                if r.len() > 1 || na.op == Op::Concat {
                    let mut v: Vec<u32> = r.iter().map(|x| x.0 + x.1).collect();
                    v.extend(piece_bounds(a));
                    bounds = Some(v);
                }
            }
        } else if na.op == Op::Concat || nb.op == Op::Concat {
            let pa = piece_bounds(a);
            let pb = piece_bounds(b);
            if pa.len() + pb.len() < 200 {
                let mut v = pa;
                v.extend(pb);
                bounds = Some(v);
            }
        }
        if let Some(mut v) = bounds {
            v.sort();
            v.dedup();
            if v.len() > 1 {
                let mut lo = 0;
                let mut out = vec![];
                let mut trivial = 0;
                for h in v {
                    let x = extract(a, lo, h - lo);
                    let y = extract(b, lo, h - lo);
                    let r = bitop(op, x, y);
                    let rn = node(r);
                    if !(rn.op == op && ((rn.a == x && rn.b == y) || (rn.a == y && rn.b == x))) {
                        trivial += 1;
                    }
                    out.push(r);
                    lo = h;
                }
                if trivial > 0 {
                    out.reverse();
                    return concat_all(&out);
                }
            }
        }
    }
    mk(op, w, a, b, 0)
}

// ---------------------------------------------------------------- arithmetic

pub fn neg(a: E) -> E {
    sub(cst(width(a), 0), a)
}
fn add_raw(a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "add width");
    let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
    if let (Some(x), Some(y)) = (const_bits(a), const_bits(b)) {
        return cbits(w, &x.add(&y, w));
    }
    if is_zero(b) {
        return a;
    }
    if w == 1 {
        return xor(a, b);
    }
    if let Some(r) = tab_op(w, &[a, b], |v| v[0].wrapping_add(v[1])) {
        return r;
    }
    let (na, nb) = (node(a), node(b));
    if nb.op == Op::Const && na.op == Op::Add && is_const(na.b) {
        return add(na.a, add(na.b, b));
    }
    if nb.op == Op::Const && na.op == Op::Sub && is_const(na.a) {
        return sub(add(na.a, b), na.b);
    }
    if na.op == Op::Sub && na.b == b {
        return na.a;
    }
    if nb.op == Op::Sub && nb.b == a {
        return nb.a;
    }
    // q*10 + digit
    for (x, y) in [(a, b), (b, a)] {
        if let Some(q) = muladd10(x, y, w) {
            return q;
        }
    }
    // (x - y) + y handled; disjoint bits -> or
    if na.op == Op::Concat || nb.op == Op::Concat {
        let pa = piece_bounds(a);
        let pb = piece_bounds(b);
        if pa.len() + pb.len() < 40 {
            let mut v = pa;
            v.extend(pb);
            if let Some(bb) = const_bits(b) {
                if let Some(r) = runs(&bb, w, 16) {
                    v.extend(r.iter().map(|x| x.0 + x.1));
                }
            }
            v.sort();
            v.dedup();
            let mut lo = 0;
            let mut ok = true;
            for h in &v {
                let x = extract(a, lo, h - lo);
                let y = extract(b, lo, h - lo);
                if !is_zero(x) && !is_zero(y) {
                    ok = false;
                    break;
                }
                lo = *h;
            }
            if ok {
                return or(a, b);
            }
        }
    }
    mk(Op::Add, w, a, b, 0)
}
/// x = (base/10^(i+1))*10 and y = digit(base,i)  ==>  base/10^i
fn muladd10(x: E, y: E, w: u32) -> Option<E> {
    let (b2, i) = as_digit(y)?;
    let n = node(strip(x));
    if n.op != Op::Mul {
        return None;
    }
    if const_bits(n.b)?.u64() != 10 || !const_bits(n.b)?.fits128() {
        return None;
    }
    let (b1, j) = as_quot(n.a)?;
    if j != i + 1 || b1 != b2 || width(b1) > w {
        return None;
    }
    Some(quot(b1, i, w))
}
fn quot(base: E, i: u32, w: u32) -> E {
    if i == 0 {
        return zext(base, w);
    }
    let bw = width(base);
    let p = &cx().pow10[i as usize];
    if bw < 320 && !p.extract(bw, 320 - bw).is_zero() {
        return cst(w, 0);
    }
    zext(udiv(base, cbits(bw, &p.extract(0, bw))), w)
}
fn sub_raw(a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "sub width");
    if a == b {
        return cst(w, 0);
    }
    if let Some(y) = const_bits(b) {
        if let Some(x) = const_bits(a) {
            return cbits(w, &x.sub(&y, w));
        }
        return add(a, cbits(w, &y.neg(w)));
    }
    if w == 1 {
        return xor(a, b);
    }
    if let Some(r) = tab_op(w, &[a, b], |v| v[0].wrapping_sub(v[1])) {
        return r;
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Add {
        if na.a == b {
            return na.b;
        }
        if na.b == b {
            return na.a;
        }
    }
    if na.op == Op::Add && nb.op == Op::Add && is_const(na.b) && is_const(nb.b) {
        return add(sub(na.a, nb.a), sub(na.b, nb.b));
    }
    if nb.op == Op::Sub && nb.a == a {
        return nb.b;
    }
    if na.op == Op::Const && nb.op == Op::Add && is_const(nb.b) {
        return sub(sub(a, nb.b), nb.a);
    }
    // x - (x/10)*10
    {
        let n = node(strip(b));
        if n.op == Op::Mul && const_bits(n.b).map_or(false, |c| c.fits128() && c.u128() == 10) {
            if let (Some((b1, j)), Some((b0, i))) = (as_quot(n.a), as_quot(a)) {
                if b1 == b0 && j == i + 1 && width(b0) <= w {
                    return zext(digit(b0, i), w);
                }
            }
        }
    }
    mk(Op::Sub, w, a, b, 0)
}
fn mul_raw(a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "mul width");
    let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
    if let Some(y) = const_bits(b) {
        if let Some(x) = const_bits(a) {
            return cbits(w, &x.mul(&y, w));
        }
        if y.is_zero() {
            return b;
        }
        if let Some(k) = pow2(&y) {
            return shl(a, cst(w, k as u64));
        }
        // (x * c) * y = x * (c * y) when the inner product is exact
        if !(y.fits128() && y.u128() == 10) {
            if let Some((x, c)) = as_scaled(a) {
                if c.blen() + y.blen() <= w && width(x) <= w {
                    return mul(zext(x, w), cbits(w, &c.extract_or_pad(w).mul(&y.extract_or_pad(w), w)));
                }
            }
        }
    }
    if w == 1 {
        return and(a, b);
    }
    // keep (leading decimal digit) * 10 in the shape recognised by muladd10
    let lead = is10(b) && as_quot(a).map_or(false, |(_, i)| i > 0);
    if !lead {
        if let Some(r) = tab_op(w, &[a, b], |v| v[0].wrapping_mul(v[1])) {
            return r;
        }
    }
    // drop redundant zero-extension: product fits in fewer bits
    let (sa, sb) = (strip(a), strip(b));
    let need = sig(sa) + sig(sb);
    // exact products are kept with sorted factors
    if need <= w && !is_const(a) && !is_const(b) {
        let mut f = vec![];
        factors(sa, &mut f);
        factors(sb, &mut f);
        if f.len() > 2 {
            f.sort();
            let mut r = f[0];
            for x in &f[1..] {
                let n = sig(r) + sig(*x);
                r = mk(Op::Mul, n, zext(r, n), zext(*x, n), 0);
            }
            return if width(r) <= w { zext(r, w) } else { extract(r, 0, w) };
        }
    }
    if need < w && !is_const(a) {
        let r = mul(resize(a, need), resize(b, need));
        return zext(r, w);
    }
    mk(Op::Mul, w, a, b, 0)
}
/// e = x * c exactly, c a constant
fn as_scaled(e: E) -> Option<(E, Bits)> {
    let e = strip(e);
    let n = node(e);
    if n.op == Op::Mul && n.w >= 40 {
        let c = const_bits(n.b)?;
        let x = strip(n.a);
        if sig(x) + c.blen() <= n.w {
            return Some((x, c));
        }
    }
    None
}
/// factors of an exact (never wrapping) product
fn factors(e: E, out: &mut Vec<E>) {
    let n = node(e);
    if n.op == Op::Mul && !is_const(n.a) && !is_const(n.b) {
        let (x, y) = (strip(n.a), strip(n.b));
        if sig(x) + sig(y) <= n.w {
            factors(x, out);
            factors(y, out);
            return;
        }
    }
    out.push(e);
}
fn sig(e: E) -> u32 {
    if let Some(b) = const_bits(e) {
        return b.blen().max(1);
    }
    width(e)
}
fn is10(e: E) -> bool {
    const_bits(e).map_or(false, |c| c.fits128() && c.u128() == 10)
}
fn pow2(b: &Bits) -> Option<u32> {
    let l = b.limbs();
    if l.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
        Some(b.blen() - 1)
    } else {
        None
    }
}
fn udiv_raw(a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "udiv width");
    if let (Some(x), Some(y)) = (const_bits(a), const_bits(b)) {
        return cbits(w, &x.udivrem(&y, w).0);
    }
    if w <= 64 {
        if let Some(r) = tab_op(w, &[a, b], |v| if v[1] == 0 { mask(w) } else { v[0] / v[1] }) {
            return r;
        }
    }
    if let Some(y) = const_bits(b) {
        if !y.is_zero() {
            if let Some(k) = pow2(&y) {
                return lshr(a, cst(w, k as u64));
            }
            if range_ok(a) && y.fits128() && range(a).1 < y.u128() {
                return cst(w, 0);
            }
            if y.fits128() {
                if let Some((x, c)) = as_scaled(a) {
                    if c.fits128() {
                        let (mut p, mut q) = (c.u128(), y.u128());
                        while q != 0 {
                            (p, q) = (q, p % q);
                        }
                        if p > 1 && width(x) <= w {
                            let d = |v: u128| cbits(w, &Bits::from_u128(128, v / p).extract_or_pad(w));
                            return udiv(mul(zext(x, w), d(c.u128())), d(y.u128()));
                        }
                    }
                }
            }
            let na = node(a);
            if na.op == Op::Concat && is_zero(na.a) {
                let iw = width(na.b);
                if y.blen() <= iw {
                    return zext(udiv(na.b, cbits(iw, &y.extract(0, iw))), w);
                }
                return cst(w, 0);
            }
            if na.op == Op::UDiv && is_const(na.b) {
                let c = const_bits(na.b).unwrap();
                if c.blen() + y.blen() <= w {
                    return udiv(na.a, cbits(w, &c.mul(&y, w)));
                }
                let p = c.extract_or_pad(w * 2).mul(&y.extract_or_pad(w * 2), w * 2);
                if p.blen() > w {
                    return cst(w, 0);
                }
                return udiv(na.a, cbits(w, &p.extract(0, w)));
            }
        }
    } else {
        // common zero-extension
        let (na, nb) = (node(a), node(b));
        if na.op == Op::Concat && is_zero(na.a) && nb.op == Op::Concat && is_zero(nb.a) && false {
            let iw = width(na.b).max(width(nb.b));
            return zext(udiv(resize(a, iw), resize(b, iw)), w);
        }
    }
    mk(Op::UDiv, w, a, b, 0)
}
fn urem_raw(a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "urem width");
    if let (Some(x), Some(y)) = (const_bits(a), const_bits(b)) {
        return cbits(w, &x.udivrem(&y, w).1);
    }
    if let Some(r) = tab_op(w, &[a, b], |v| if v[1] == 0 { v[0] } else { v[0] % v[1] }) {
        return r;
    }
    if let Some(y) = const_bits(b) {
        if !y.is_zero() {
            if let Some(k) = pow2(&y) {
                return if k == 0 { cst(w, 0) } else { zext(extract(a, 0, k), w) };
            }
            if range_ok(a) && y.fits128() && range(a).1 < y.u128() {
                return a;
            }
            if y.fits128() && y.u128() == 10 && w >= 8 {
                if let Some((base, i)) = as_quot(a) {
                    return zext(digit(base, i), w);
                }
            }
            let na = node(a);
            if na.op == Op::Concat && is_zero(na.a) {
                let iw = width(na.b);
                if y.blen() <= iw {
                    return zext(urem(na.b, cbits(iw, &y.extract(0, iw))), w);
                }
                return a;
            }
        }
    }
    mk(Op::URem, w, a, b, 0)
}
pub fn sdiv(a: E, b: E) -> E {
    let w = width(a);
    sdr(a, b, w, true)
}
pub fn srem(a: E, b: E) -> E {
    let w = width(a);
    sdr(a, b, w, false)
}
fn sdr(a: E, b: E, w: u32, q: bool) -> E {
    // via unsigned division on absolute values
    let sa = extract(a, w - 1, 1);
    let sb = extract(b, w - 1, 1);
    let ua = ite(sa, neg(a), a);
    let ub = ite(sb, neg(b), b);
    if q {
        let r = udiv(ua, ub);
        ite(xor(sa, sb), neg(r), r)
    } else {
        let r = urem(ua, ub);
        ite(sa, neg(r), r)
    }
}
fn shl_raw(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = const_bits(b) {
        let k = if k.fits128() { k.u128().min(w as u128) as u32 } else { w };
        if k == 0 {
            return a;
        }
        if k >= w {
            return cst(w, 0);
        }
        return concat(extract(a, 0, w - k), cst(k, 0));
    }
    if let Some(r) = tab_op(w, &[a, b], |v| if v[1] >= w as u64 { 0 } else { v[0] << v[1] }) {
        return r;
    }
    mk(Op::Shl, w, a, b, 0)
}
fn lshr_raw(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = const_bits(b) {
        let k = if k.fits128() { k.u128().min(w as u128) as u32 } else { w };
        if k == 0 {
            return a;
        }
        if k >= w {
            return cst(w, 0);
        }
        return zext(extract(a, k, w - k), w);
    }
    if let Some(r) = tab_op(w, &[a, b], |v| if v[1] >= w as u64 { 0 } else { v[0] >> v[1] }) {
        return r;
    }
    mk(Op::LShr, w, a, b, 0)
}
fn ashr_raw(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = const_bits(b) {
        let k = if k.fits128() { k.u128().min(w as u128 - 1) as u32 } else { w - 1 };
        if k == 0 {
            return a;
        }
        return sext(extract(a, k, w - k), w);
    }
    if let Some(r) = tab_op(w, &[a, b], |v| Bits::S(v[0]).ashr((v[1]).min(w as u64) as u32, w).u64()) {
        return r;
    }
    mk(Op::AShr, w, a, b, 0)
}

// ---------------------------------------------------------------- ite / predicates

fn ite_raw(c: E, a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "ite width");
    if let Some(v) = cval(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    if let Some(x) = as_not(c) {
        return ite(x, b, a);
    }
    if w == 1 {
        if let Some(v) = cval(a) {
            return if v == 1 { or(c, b) } else { and(not(c), b) };
        }
        if let Some(v) = cval(b) {
            return if v == 1 { or(not(c), a) } else { and(c, a) };
        }
    }
    if let Some(r) = tab_op(w, &[c, a, b], |v| if v[0] == 1 { v[1] } else { v[2] }) {
        return r;
    }
    let (na, nb) = (node(a), node(b));
    let a = if na.op == Op::Ite && na.a == c { na.b } else { a };
    let b = if nb.op == Op::Ite && nb.a == c { nb.c } else { b };
    if a == b {
        return a;
    }
    // common leading/trailing pieces
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a {
        return concat(na.a, ite(c, na.b, nb.b));
    }
    // zero-extended values share their zero prefix
    if w > 1 && (na.op == Op::Concat || nb.op == Op::Concat) {
        let za = lead_zero(a);
        let zb = lead_zero(b);
        let z = za.min(zb);
        if z > 0 && z < w {
            return zext(ite(c, extract(a, 0, w - z), extract(b, 0, w - z)), w);
        }
    }
    mk(Op::Ite, w, c, a, b)
}
fn lead_zero(e: E) -> u32 {
    let n = node(e);
    match n.op {
        Op::Const => n.w - const_bits(e).unwrap().blen(),
        Op::Concat => {
            if is_zero(n.a) {
                width(n.a)
            } else if is_const(n.a) {
                lead_zero(n.a)
            } else {
                0
            }
        }
        _ => 0,
    }
}

// GF(2)-affine normal form, used to decide equalities between xor-linear
// expressions (checksum polynomials) without a solver.

/// (constant, sorted list of atoms (node << 8 | bit))
pub type Aff = (bool, Rc<Vec<u64>>);

fn aff_xor(x: &Aff, y: &Aff) -> Aff {
    if x.1.is_empty() {
        return (x.0 ^ y.0, y.1.clone());
    }
    if y.1.is_empty() {
        return (x.0 ^ y.0, x.1.clone());
    }
    let (a, b) = (&x.1, &y.1);
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i] < b[j]) {
            v.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j] < a[i] {
            v.push(b[j]);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    (x.0 ^ y.0, Rc::new(v))
}
/// is the table affine over GF(2)?  Returns its columns.
fn affine_table(t: &[u64]) -> Option<Vec<u64>> {
    if !t.len().is_power_of_two() {
        return None;
    }
    let k = t.len().trailing_zeros();
    let cols: Vec<u64> = (0..k).map(|i| t[1 << i] ^ t[0]).collect();
    for (i, v) in t.iter().enumerate() {
        let mut r = t[0];
        for (j, c) in cols.iter().enumerate() {
            if i >> j & 1 == 1 {
                r ^= c;
            }
        }
        if r != *v {
            return None;
        }
    }
    Some(cols)
}
/// does the expression have a proper xor reachable through linear operations?
fn has_xor(e: E) -> bool {
    let n = node(e);
    match n.op {
        Op::Xor if !is_const(n.b) => return true,
        Op::Xor | Op::Extract | Op::Concat | Op::Table | Op::Ite => {}
        _ => return false,
    }
    if let Some(r) = cx().axf.get(&e) {
        return *r;
    }
    let r = match n.op {
        Op::Concat => has_xor(n.a) || has_xor(n.b),
        Op::Table | Op::Extract | Op::Xor => has_xor(n.a),
        _ => is_const(n.b) && is_const(n.c) && has_xor(n.a),
    };
    cx().axf.insert(e, r);
    r
}
pub fn affine(e: E) -> Rc<Vec<Aff>> {
    if let Some(r) = cx().aff.get(&e) {
        return r.clone();
    }
    let n = node(e);
    let none = || Rc::new(vec![]);
    let atoms = |e: E, w: u32| -> Vec<Aff> { (0..w).map(|i| (false, Rc::new(vec![(e as u64) << 8 | i as u64]))).collect() };
    let r: Vec<Aff> = match n.op {
        Op::Const => {
            let b = const_bits(e).unwrap();
            (0..n.w).map(|i| (b.bit(i), none())).collect()
        }
        Op::Xor => {
            let (x, y) = (affine(n.a), affine(n.b));
            x.iter().zip(y.iter()).map(|(p, q)| aff_xor(p, q)).collect()
        }
        Op::Concat => {
            let (h, l) = (affine(n.a), affine(n.b));
            l.iter().chain(h.iter()).cloned().collect()
        }
        Op::Extract if width(n.a) <= 256 => {
            let s = affine(n.a);
            s[n.b as usize..(n.b + n.w) as usize].to_vec()
        }
        Op::Extract => {
            // wide source: bits of the source are the atoms
            (0..n.w).map(|i| (false, Rc::new(vec![(1u64 << 60) | (n.a as u64) << 24 | (n.b + i) as u64]))).collect()
        }
        Op::Ite if is_const(n.b) && is_const(n.c) => {
            let c = affine(n.a)[0].clone();
            let (x, y) = (const_bits(n.b).unwrap(), const_bits(n.c).unwrap());
            (0..n.w)
                .map(|i| {
                    let base = (y.bit(i), none());
                    if x.bit(i) != y.bit(i) {
                        aff_xor(&base, &c)
                    } else {
                        base
                    }
                })
                .collect()
        }
        Op::Table => {
            let t = cx().tables[n.b as usize].clone();
            match if node(n.a).op == Op::Digit { None } else { affine_table(&t) } {
                Some(cols) => {
                    let s = affine(n.a);
                    (0..n.w)
                        .map(|i| {
                            let mut r: Aff = (t[0] >> i & 1 == 1, none());
                            for (j, c) in cols.iter().enumerate() {
                                if c >> i & 1 == 1 {
                                    r = aff_xor(&r, &s[j]);
                                }
                            }
                            r
                        })
                        .collect()
                }
                None => atoms(e, n.w),
            }
        }
        _ => {
            if n.w > 256 {
                (0..n.w).map(|i| (false, Rc::new(vec![(1u64 << 60) | (e as u64) << 24 | i as u64]))).collect()
            } else {
                atoms(e, n.w)
            }
        }
    };
    let r = Rc::new(r);
    cx().aff.insert(e, r.clone());
    r
}

fn eq_raw(a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "eq width");
    if a == b {
        return tru();
    }
    let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
    if is_const(a) && is_const(b) {
        return fls();
    }
    if w <= 128 && (has_xor(a) || has_xor(b)) {
        let (x, y) = (affine(a), affine(b));
        let mut same = true;
        for (p, q) in x.iter().zip(y.iter()) {
            if p.1 != q.1 {
                same = false;
            } else if p.0 != q.0 {
                return fls();
            }
        }
        if same {
            return tru();
        }
    }
    if w == 1 {
        if let Some(v) = cval(b) {
            return if v == 1 { a } else { not(a) };
        }
        return not(xor(a, b));
    }
    if let Some(r) = tab_op(1, &[a, b], |v| (v[0] == v[1]) as u64) {
        return r;
    }
    if range_ok(a) && range_ok(b) {
        let (al, ah) = range(a);
        let (bl, bh) = range(b);
        if ah < bl || bh < al {
            return fls();
        }
    }
    if is_pred(a, b) || is_pred(b, a) {
        return fls();
    }
    if let Some(r) = eq_div(a, b) {
        return r;
    }
    let (na, nb) = (node(a), node(b));
    if w == 256 {
        // collision freedom: equal digests mean equal permutation inputs
        if let Some(x) = cx().hash_in.get(&a).cloned() {
            let y = if nb.op == Op::Const {
                cx().hash_const.get(&const_bits(b).unwrap()).cloned()
            } else {
                cx().hash_in.get(&b).cloned()
            };
            if let Some(y) = y {
                let mut r = tru();
                for k in (0..25).rev() {
                    r = and(r, eq(x[k], y[k]));
                    if r == fls() {
                        break;
                    }
                }
                return r;
            }
        }
    }
    if nb.op == Op::Const {
        match na.op {
            Op::Add if is_const(na.b) => return eq(na.a, sub(b, na.b)),
            Op::Sub if is_const(na.a) => return eq(na.b, sub(na.a, b)),
            Op::Xor if is_const(na.b) => return eq(na.a, xor(na.b, b)),
            Op::Sub if is_zero(b) => return eq(na.a, na.b),
            Op::Ite if is_const(na.b) || is_const(na.c) => {
                return ite(na.a, eq(na.b, b), eq(na.c, b));
            }
            Op::SExt => {
                let aw = width(na.a);
                let lo = extract(b, 0, aw);
                return if sext(lo, w) == b { eq(na.a, lo) } else { fls() };
            }
            _ => {}
        }
    }
    if na.op == Op::Ite && (na.b == b || na.c == b) {
        return if na.b == b { or(na.a, eq(na.c, b)) } else { or(not(na.a), eq(na.b, b)) };
    }
    if nb.op == Op::Ite && (nb.b == a || nb.c == a) {
        return if nb.b == a { or(nb.a, eq(nb.c, a)) } else { or(not(nb.a), eq(nb.b, a)) };
    }
    if na.op == Op::Add && nb.op == Op::Add {
        if na.a == nb.a {
            return eq(na.b, nb.b);
        }
        if na.b == nb.b {
            return eq(na.a, nb.a);
        }
        if na.a == nb.b {
            return eq(na.b, nb.a);
        }
        if na.b == nb.a {
            return eq(na.a, nb.b);
        }
    }
    if na.op == Op::Concat || nb.op == Op::Concat {
        let mut v = piece_bounds(a);
        v.extend(piece_bounds(b));
        v.sort();
        v.dedup();
        // first pass: constant mismatch
        let mut lo = 0;
        let mut parts = vec![];
        for h in v {
            let x = extract(a, lo, h - lo);
            let y = extract(b, lo, h - lo);
            if is_const(x) && is_const(y) && x != y {
                return fls();
            }
            if x != y {
                parts.push((x, y));
            }
            lo = h;
        }
        let mut r = tru();
        // regroup adjacent parts where possible
        let mut i = 0;
        while i < parts.len() {
            let (mut x, mut y) = parts[i];
            let mut j = i + 1;
            while j < parts.len() {
                // fuse only if both sides fuse into a single piece
                let (fx, fy) = (fuse(parts[j].0, x), fuse(parts[j].1, y));
                match (fx, fy) {
                    (Some(p), Some(q)) if node(p).op != Op::Concat && node(q).op != Op::Concat => {
                        x = p;
                        y = q;
                        j += 1;
                    }
                    _ => break,
                }
            }
            r = and(r, if width(x) == w { mk(Op::Eq, 1, x.min(y), x.max(y), 0) } else { eq(x, y) });
            if r == fls() {
                return r;
            }
            i = j;
        }
        return r;
    }
    mk(Op::Eq, 1, a, b, 0)
}
pub fn ne(a: E, b: E) -> E {
    not(eq(a, b))
}
/// y / c with a constant c that is not a power of two?
fn as_div(e: E) -> Option<(E, Bits)> {
    let mut e = strip(e);
    let n = node(e);
    if n.op == Op::Extract && n.b == 0 {
        // truncation of a quotient that fits
        let (u, k) = (n.a, n.w);
        let q = node(u);
        if q.op != Op::UDiv {
            return None;
        }
        let c = const_bits(q.b)?;
        let fits = q.w < k + c.blen() || (k < 128 && range_ok(u) && range(u).1 >> k == 0);
        if !fits {
            return None;
        }
        e = u;
    }
    let n = node(e);
    if n.op == Op::UDiv && n.w >= 40 {
        return Some((n.a, const_bits(n.b)?));
    }
    None
}
/// a = b - 1 (wrapping in a width that holds b)
fn is_pred(a: E, b: E) -> bool {
    let n = node(strip(a));
    n.op == Op::Add && is_ones(n.b) && n.w > 1 && strip(n.a) == strip(b) && !is_const(b)
}
/// Comparisons with a quotient are stated without the division.
fn ult_div(a: E, b: E) -> Option<E> {
    let (da, db) = (as_div(a), as_div(b));
    if da.is_some() == db.is_some() {
        return None;
    }
    let (y, c) = da.clone().or(db)?;
    let x = strip(if da.is_some() { b } else { a });
    let y = strip(y);
    let w = (width(x) + c.blen() + 1).max(width(y));
    let cc = cbits(w, &c.extract_or_pad(w));
    let y = zext(y, w);
    Some(if da.is_some() {
        ult(y, mul(zext(x, w), cc))
    } else {
        not(ult(y, mul(add(zext(x, w), cst(w, 1)), cc)))
    })
}
fn eq_div(a: E, b: E) -> Option<E> {
    let (da, db) = (as_div(a), as_div(b));
    if da.is_some() == db.is_some() {
        return None;
    }
    let (y, c) = da.clone().or(db)?;
    let x = strip(if da.is_some() { b } else { a });
    let y = strip(y);
    let w = (width(x) + c.blen() + 1).max(width(y));
    let cc = cbits(w, &c.extract_or_pad(w));
    let y = zext(y, w);
    let lo = mul(zext(x, w), cc);
    Some(and(not(ult(y, lo)), ult(y, add(lo, cc))))
}
fn ult_raw(a: E, b: E) -> E {
    let w = width(a);
    assert_eq!(w, width(b), "ult width");
    if a == b {
        return fls();
    }
    if let (Some(x), Some(y)) = (const_bits(a), const_bits(b)) {
        return cst(1, x.ult(&y) as u64);
    }
    if is_zero(b) || is_ones(a) {
        return fls();
    }
    if is_zero(a) {
        return ne(a, b);
    }
    // (z - 1) < z, z < (z - 1)
    if is_pred(a, b) {
        return ne(b, cst(w, 0));
    }
    if is_pred(b, a) {
        return eq(a, cst(w, 0));
    }
    // base/10^i < (base/10^(i+1))*10 never holds
    {
        let m = node(strip(b));
        if m.op == Op::Mul && is10(m.b) {
            if let (Some((b1, j)), Some((b0, i))) = (as_quot(m.a), as_quot(strip(a))) {
                if b1 == b0 && j == i + 1 && width(b0) <= w {
                    return fls();
                }
            }
        }
    }
    if is_ones(b) {
        return ne(a, b);
    }
    if let Some(y) = const_bits(b) {
        if y.fits128() && y.u128() == 1 {
            return eq(a, cst(w, 0));
        }
    }
    if w == 1 {
        return and(not(a), b);
    }
    // x * c compared with a constant
    if let (Some((x, c)), Some(y)) = (as_scaled(a), const_bits(b)) {
        // x * c < y  <=>  x < ceil(y / c)
        let ww = w.max(width(x)).max(c.blen()) + 1;
        let t = y.extract_or_pad(ww).add(&c.extract_or_pad(ww), ww).sub(&Bits::from_u128(ww, 1), ww).udivrem(&c.extract_or_pad(ww), ww).0;
        return ult(zext(x, ww), cbits(ww, &t));
    }
    if let (Some(y), Some((x, c))) = (const_bits(a), as_scaled(b)) {
        let ww = w.max(width(x)).max(c.blen());
        let t = y.extract_or_pad(ww).udivrem(&c.extract_or_pad(ww), ww).0;
        return ult(cbits(ww, &t), zext(x, ww));
    }
    if let Some(r) = tab_op(1, &[a, b], |v| (v[0] < v[1]) as u64) {
        return r;
    }
    if range_ok(a) && range_ok(b) {
        let (al, ah) = range(a);
        let (bl, bh) = range(b);
        if ah < bl {
            return tru();
        }
        if al >= bh {
            return fls();
        }
    }
    if let Some(r) = ult_div(a, b) {
        return r;
    }
    let (za, zb) = (lead_zero(a), lead_zero(b));
    let z = za.min(zb);
    if z > 0 && z < w {
        return ult(extract(a, 0, w - z), extract(b, 0, w - z));
    }
    if za != zb {
        // compare against a zero-extended value: high part must be zero
        if za > zb && za < w && is_const(b) {
            return tru();
        }
        if zb > za && zb < w && is_const(a) {
            return fls();
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && is_const(b) && (is_const(na.b) || is_const(na.c)) {
        return ite(na.a, ult(na.b, b), ult(na.c, b));
    }
    if nb.op == Op::Ite && is_const(a) && (is_const(nb.b) || is_const(nb.c)) {
        return ite(nb.a, ult(a, nb.b), ult(a, nb.c));
    }
    // equal high pieces
    if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a {
        return ult(na.b, nb.b);
    }
    mk(Op::Ult, 1, a, b, 0)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
fn slt_raw(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return fls();
    }
    if let (Some(x), Some(y)) = (const_bits(a), const_bits(b)) {
        return cst(1, x.slt(&y, w) as u64);
    }
    if let Some(r) = tab_op(1, &[a, b], |v| Bits::S(v[0]).slt(&Bits::S(v[1]), w) as u64) {
        return r;
    }
    let (sa, sb) = (sign(a), sign(b));
    match (sa, sb) {
        (Some(x), Some(y)) => {
            if x == y {
                return ult(a, b);
            }
            return cst(1, x as u64);
        }
        (None, Some(false)) if is_zero(b) => return extract(a, w - 1, 1),
        (None, Some(false)) => {
            let s = extract(a, w - 1, 1);
            return or(s, ult(a, b));
        }
        (Some(false), None) => {
            let s = extract(b, w - 1, 1);
            return and(not(s), ult(a, b));
        }
        _ => {}
    }
    mk(Op::Slt, 1, a, b, 0)
}
fn sign(e: E) -> Option<bool> {
    let w = width(e);
    let t = extract(e, w - 1, 1);
    if let Some(v) = cval(t) {
        return Some(v == 1);
    }
    if w <= 128 {
        let (l, h) = range(e);
        if h >> (w - 1) == 0 {
            return Some(false);
        }
        if l >> (w - 1) == 1 {
            return Some(true);
        }
    }
    None
}
/// multiplication overflow predicate (unsigned)
pub fn umulo(a: E, b: E) -> E {
    let w = width(a);
    if range_ok(a) && range_ok(b) && w <= 128 {
        let full = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        match range(a).1.checked_mul(range(b).1) {
            Some(v) if v <= full => return fls(),
            _ => {}
        }
    }
    if sig(strip(a)) + sig(strip(b)) <= w {
        return fls();
    }
    // (base/10^i) * 10 with i >= 1 never overflows
    for (x, y) in [(a, b), (b, a)] {
        if const_bits(y).map_or(false, |c| c.fits128() && c.u128() == 10) {
            if let Some((base, i)) = as_quot(x) {
                if i >= 1 && width(base) <= w {
                    return fls();
                }
            }
        }
    }
    if let Some(c) = const_bits(b) {
        if !c.is_zero() {
            let m = Bits::ones(w).udivrem(&c, w).0;
            return ult(cbits(w, &m), a);
        }
    }
    if let Some(c) = const_bits(a) {
        if !c.is_zero() {
            let m = Bits::ones(w).udivrem(&c, w).0;
            return ult(cbits(w, &m), b);
        }
    }
    let p = mul(zext(a, 2 * w), zext(b, 2 * w));
    ne(extract(p, w, w), cst(w, 0))
}
pub fn uaddo(a: E, b: E) -> E {
    let w = width(a);
    if w <= 128 {
        let full = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        match range(a).1.checked_add(range(b).1) {
            Some(v) if v <= full => return fls(),
            _ => {}
        }
    }
    for (x, y) in [(a, b), (b, a)] {
        if muladd10(x, y, w).is_some() {
            return fls();
        }
    }
    if is_const(b) {
        return ult(not(b), a);
    }
    if is_const(a) {
        return ult(not(a), b);
    }
    ult(add(a, b), a)
}

// ---------------------------------------------------------------- support, eval, display

pub fn children(e: E) -> ([E; 3], usize) {
    let n = node(e);
    match n.op {
        Op::Const | Op::Var => ([0; 3], 0),
        Op::Extract | Op::SExt | Op::Table | Op::Digit => ([n.a, 0, 0], 1),
        Op::Ite => ([n.a, n.b, n.c], 3),
        _ => ([n.a, n.b, 0], 2),
    }
}

pub fn support(e: E) -> Rc<Vec<u32>> {
    if let Some(s) = cx().support.get(&e) {
        return s.clone();
    }
    // iterative post-order
    let mut stack = vec![(e, false)];
    while let Some((x, done)) = stack.pop() {
        if cx().support.contains_key(&x) {
            continue;
        }
        let n = node(x);
        let (ch, k) = children(x);
        if !done && k > 0 {
            stack.push((x, true));
            for c in &ch[..k] {
                if !cx().support.contains_key(c) {
                    stack.push((*c, false));
                }
            }
            continue;
        }
        let s: Rc<Vec<u32>> = match n.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.a]),
            _ => {
                let s0 = cx().support[&ch[0]].clone();
                if k == 1 {
                    s0
                } else {
                    let mut v = (*s0).clone();
                    let l0 = v.len();
                    for c in &ch[1..k] {
                        v.extend(cx().support[c].iter());
                    }
                    v.sort();
                    v.dedup();
                    if v.len() == l0 {
                        s0
                    } else {
                        Rc::new(v)
                    }
                }
            }
        };
        cx().support.insert(x, s);
    }
    cx().support[&e].clone()
}

pub type Assign = FxMap<u32, Bits>;

/// value of op applied to constant children
pub fn apply(n: Node, w: u32, ch: &[(Bits, u32)]) -> Bits {
    let a = ch.get(0).map(|x| &x.0);
    let b = ch.get(1).map(|x| &x.0);
    let wa = ch.get(0).map(|x| x.1).unwrap_or(0);
    let bool_ = |x: bool| Bits::S(x as u64);
    match n.op {
        Op::Extract => a.unwrap().extract(n.b, w),
        Op::Concat => Bits::concat(a.unwrap(), wa, b.unwrap(), ch[1].1),
        Op::SExt => a.unwrap().sext(wa, w),
        Op::Add => a.unwrap().add(b.unwrap(), w),
        Op::Sub => a.unwrap().sub(b.unwrap(), w),
        Op::Mul => a.unwrap().mul(b.unwrap(), w),
        Op::UDiv => a.unwrap().udivrem(b.unwrap(), w).0,
        Op::URem => a.unwrap().udivrem(b.unwrap(), w).1,
        Op::And => a.unwrap().map2(b.unwrap(), w, |x, y| x & y),
        Op::Or => a.unwrap().map2(b.unwrap(), w, |x, y| x | y),
        Op::Xor => a.unwrap().map2(b.unwrap(), w, |x, y| x ^ y),
        Op::Shl | Op::LShr | Op::AShr => {
            let k = b.unwrap();
            let k = if k.fits128() && k.u128() < w as u128 { k.u64() as u32 } else { w };
            match n.op {
                Op::Shl => a.unwrap().shl(k, w),
                Op::LShr => a.unwrap().lshr(k, w),
                _ => a.unwrap().ashr(k, w),
            }
        }
        Op::Ite => {
            if a.unwrap().u64() == 1 {
                ch[1].0.clone()
            } else {
                ch[2].0.clone()
            }
        }
        Op::Eq => bool_(a.unwrap() == b.unwrap()),
        Op::Ult => bool_(a.unwrap().ult(b.unwrap())),
        Op::Slt => bool_(a.unwrap().slt(b.unwrap(), wa)),
        Op::Table => Bits::S(cx().tables[n.b as usize][a.unwrap().u64() as usize]),
        Op::Digit => {
            let ww = (wa + 8).max(64);
            let x = a.unwrap().extract_or_pad(ww);
            let p = &cx().pow10[n.b as usize];
            if p.blen() > ww {
                return Bits::S(0);
            }
            let q = x.udivrem(&p.extract(0, ww), ww).0;
            Bits::S(q.udivrem(&Bits::from_u64(ww, 10), ww).1.u64())
        }
        _ => unreachable!(),
    }
}

pub struct Evaluator<'a> {
    pub asg: &'a Assign,
    pub memo: FxMap<E, Bits>,
}
impl<'a> Evaluator<'a> {
    pub fn new(asg: &'a Assign) -> Self {
        Evaluator { asg, memo: Default::default() }
    }
    pub fn eval(&mut self, e: E) -> Bits {
        if let Some(b) = const_bits(e) {
            return b;
        }
        if let Some(b) = self.memo.get(&e) {
            return b.clone();
        }
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.memo.contains_key(&x) {
                continue;
            }
            let n = node(x);
            let (ch, k) = children(x);
            if n.op == Op::Const {
                self.memo.insert(x, const_bits(x).unwrap());
                continue;
            }
            if n.op == Op::Var {
                let v = self.asg.get(&n.a).cloned().unwrap_or_else(|| Bits::zero(n.w));
                self.memo.insert(x, v);
                continue;
            }
            if !done {
                stack.push((x, true));
                for c in &ch[..k] {
                    if !self.memo.contains_key(c) {
                        stack.push((*c, false));
                    }
                }
                continue;
            }
            let vals: Vec<(Bits, u32)> = ch[..k].iter().map(|c| (self.memo[c].clone(), width(*c))).collect();
            let v = apply(n, n.w, &vals);
            self.memo.insert(x, v);
        }
        self.memo[&e].clone()
    }
}

/// substitute variables by expressions
pub fn subst(e: E, m: &FxMap<u32, E>, memo: &mut FxMap<E, E>) -> E {
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let n = node(e);
    let r = match n.op {
        Op::Const => e,
        Op::Var => m.get(&n.a).copied().unwrap_or(e),
        _ => {
            let s = support(e);
            if !s.iter().any(|v| m.contains_key(v)) {
                e
            } else {
                let (ch, k) = children(e);
                let c: Vec<E> = ch[..k].iter().map(|x| subst(*x, m, memo)).collect();
                rebuild(n, &c)
            }
        }
    };
    memo.insert(e, r);
    r
}
pub fn rebuild(n: Node, c: &[E]) -> E {
    match n.op {
        Op::Extract => extract(c[0], n.b, n.w),
        Op::Concat => concat(c[0], c[1]),
        Op::SExt => sext(c[0], n.w),
        Op::Add => add(c[0], c[1]),
        Op::Sub => sub(c[0], c[1]),
        Op::Mul => mul(c[0], c[1]),
        Op::UDiv => udiv(c[0], c[1]),
        Op::URem => urem(c[0], c[1]),
        Op::And | Op::Or | Op::Xor => bitop(n.op, c[0], c[1]),
        Op::Shl => shl(c[0], c[1]),
        Op::LShr => lshr(c[0], c[1]),
        Op::AShr => ashr(c[0], c[1]),
        Op::Ite => ite(c[0], c[1], c[2]),
        Op::Eq => eq(c[0], c[1]),
        Op::Ult => ult(c[0], c[1]),
        Op::Slt => slt(c[0], c[1]),
        Op::Digit => digit(c[0], n.b),
        Op::Table => {
            let t = cx().tables[n.b as usize].clone();
            table_apply(&t, n.w, c[0])
        }
        _ => unreachable!(),
    }
}
/// T[s] for an arbitrary expression s of width <= 8
pub fn table_apply(t: &[u64], w: u32, s: E) -> E {
    if let Some(v) = cval(s) {
        return cst(w, t[v as usize]);
    }
    if let Some(r) = tab_op(w, &[s], |v| t.get(v[0] as usize).copied().unwrap_or(0)) {
        return r;
    }
    unreachable!("table_apply on wide source")
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    if let Some(b) = const_bits(e) {
        return format!("0x{}:{}", b.hex(n.w), n.w);
    }
    if n.op == Op::Var {
        return cx().vars[n.a as usize].0.clone();
    }
    if depth == 0 {
        return format!("#{e}:{}", n.w);
    }
    let d = depth - 1;
    match n.op {
        Op::Extract => format!("{}[{}+:{}]", show(n.a, d), n.b, n.w),
        Op::Table => format!("T{}({})", n.b, show(n.a, d)),
        Op::Digit => format!("dig({},{})", show(n.a, d), n.b),
        _ => {
            let (c, k) = children(e);
            let v: Vec<String> = c[..k].iter().map(|x| show(*x, d)).collect();
            format!("({:?}:{} {})", n.op, n.w, v.join(" "))
        }
    }
}
pub fn tab_eval_pub(e: E, s: E, v: u64) -> u64 {
    tab_eval(e, s, v)
}
pub fn column(e: E, s: E) -> Vec<u64> {
    let c = tab_column(e, s);
    if c.len() == 1 {
        vec![c[0]; dom(s)]
    } else {
        c.to_vec()
    }
}
