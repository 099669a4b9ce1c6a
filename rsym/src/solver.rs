//! Path-condition level queries: independence slicing, caching, and the
//! keccak-f[1600] abstraction (uninterpreted permutation + collision freedom).
use crate::bits::*;
use crate::expr::*;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;

pub struct App {
    pub input: Vec<E>,  // 25 lanes
    pub out_var: Option<(u32, u32)>, // vars if symbolic: digest (256 bits), rest (1344 bits)
    pub out: Vec<E>,
}

pub struct Solver {
    pub z3: Z3,
    cache: HashMap<Vec<E>, CRes>,
    pub apps: Vec<App>,
    app_of_var: FxMap<u32, (usize, usize)>,
    app_map: HashMap<Vec<E>, usize>,
    recent: Vec<Rc<Assign>>,
    pub hits: u64,
    pub model_hits: u64,
    pub unknowns: u64,
    pub timeout: u32,
    axioms: FxMap<u64, (E, E, E)>,
}
#[derive(Clone)]
enum CRes {
    Sat(Rc<Assign>),
    Unsat,
    Unknown,
}
pub enum Q {
    Sat(Rc<Assign>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            z3: Z3::new(),
            cache: HashMap::new(),
            apps: vec![],
            app_of_var: Default::default(),
            app_map: HashMap::new(),
            recent: vec![],
            hits: 0,
            model_hits: 0,
            unknowns: 0,
            timeout: 20000,
            axioms: Default::default(),
        }
    }
    /// keccak-f[1600] applied to 25 lanes
    pub fn keccak(&mut self, lanes: Vec<E>) -> Vec<E> {
        if let Some(i) = self.app_map.get(&lanes) {
            return self.apps[*i].out.clone();
        }
        let i = self.apps.len();
        let conc: Option<Vec<u64>> = lanes.iter().map(|e| cval(*e)).collect();
        let (out, var_) = match conc {
            Some(v) => {
                let mut a = [0u64; 25];
                a.copy_from_slice(&v);
                keccak_f(&mut a);
                cx().hash_const.insert(Bits::norm(256, a[..4].to_vec()), Rc::new(lanes.clone()));
                (a.iter().map(|x| cst(64, *x)).collect::<Vec<_>>(), None)
            }
            None => {
                let v = var(&format!("keccak!{i}"), 256);
                let r = var(&format!("keccak!{i}rest"), 1344);
                let (vi, ri) = (node(v).a, node(r).a);
                self.app_of_var.insert(vi, (i, 0));
                self.app_of_var.insert(ri, (i, 1));
                cx().hash_in.insert(v, Rc::new(lanes.clone()));
                ((0..25).map(|k| if k < 4 { extract(v, 64 * k, 64) } else { extract(r, 64 * (k - 4), 64) }).collect(), Some((vi, ri)))
            }
        };
        self.app_map.insert(lanes.clone(), i);
        self.apps.push(App { input: lanes, out_var: var_, out: out.clone() });
        out
    }
    /// the digest parts (part 0) or the remaining lanes (part 1) of two
    /// applications agree exactly if their inputs agree
    fn axiom(&mut self, i: usize, j: usize, part: usize) -> Vec<E> {
        let (i, j) = if i < j { (i, j) } else { (j, i) };
        let key = (i as u64) << 32 | (j as u64) << 1 | part as u64;
        let (ie, oe, de) = match self.axioms.get(&key) {
            Some(x) => *x,
            None => {
                let f = |r: std::ops::Range<usize>, a: &Vec<E>, b: &Vec<E>| {
                    let mut e = tru();
                    for k in r {
                        e = and(e, eq(a[k], b[k]));
                        if e == fls() {
                            break;
                        }
                    }
                    e
                };
                let (a, b) = (&self.apps[i], &self.apps[j]);
                let ie = f(0..25, &a.input, &b.input);
                // part 1: the capacity lanes alone determine the input
                let (all, det) = if part == 0 { (0..4, 0..4) } else { (4..25, 17..25) };
                let oe = f(all, &a.out, &b.out);
                let de = f(det, &a.out, &b.out);
                self.axioms.insert(key, (ie, oe, de));
                (ie, oe, de)
            }
        };
        let mut v = vec![];
        if ie == fls() {
            v.push(not(de));
        } else {
            v.push(or(not(ie), oe));
            v.push(or(not(de), ie));
        }
        v.retain(|e| *e != tru());
        v
    }
    /// constraints relevant to `extra` under `pc`, including hash axioms
    fn slice(&mut self, pc: &[E], extra: &[E], full: bool) -> (Vec<E>, Vec<u32>) {
        let mut vars: FxMap<u32, ()> = Default::default();
        let mut out: Vec<E> = vec![];
        let mut used = vec![false; pc.len()];
        let mut work: Vec<u32> = vec![];
        let mut inc: FxMap<E, ()> = Default::default();
        let mut hashes: [Vec<usize>; 2] = [vec![], vec![]];
        let mut pend: Vec<E> = extra.to_vec();
        if full {
            pend.extend(pc.iter());
            used.iter_mut().for_each(|x| *x = true);
        }
        loop {
            while let Some(e) = pend.pop() {
                if inc.insert(e, ()).is_some() {
                    continue;
                }
                out.push(e);
                for v in support(e).iter() {
                    if vars.insert(*v, ()).is_none() {
                        work.push(*v);
                    }
                }
            }
            let mut new_hash = vec![];
            let had = !work.is_empty();
            for v in work.drain(..) {
                if let Some(i) = self.app_of_var.get(&v) {
                    new_hash.push(*i);
                }
            }
            for (i, part) in new_hash {
                // against concrete applications and already present symbolic ones
                for j in 0..self.apps.len() {
                    if self.apps[j].out_var.is_none() || hashes[part].contains(&j) {
                        pend.extend(self.axiom(i, j, part));
                    }
                }
                hashes[part].push(i);
            }
            if had {
                for (k, c) in pc.iter().enumerate() {
                    if !used[k] && support(*c).iter().any(|v| vars.contains_key(v)) {
                        used[k] = true;
                        pend.push(*c);
                    }
                }
            }
            if pend.is_empty() && !had {
                break;
            }
        }
        let mut vs: Vec<u32> = vars.keys().copied().collect();
        vs.sort();
        (out, vs)
    }

    /// is pc /\ extra satisfiable?  `hint`: a model of pc.
    pub fn check(&mut self, pc: &[E], extra: E, hint: &Rc<Assign>) -> Q {
        if let Some(v) = cval(extra) {
            return if v == 1 { Q::Sat(hint.clone()) } else { Q::Unsat };
        }
        let (mut cs, vars) = self.slice(pc, &[extra], false);
        cs.sort();
        cs.dedup();
        if cs.iter().any(|c| *c == fls()) {
            return Q::Unsat;
        }
        cs.retain(|c| *c != tru());
        if let Some(r) = self.cache.get(&cs) {
            self.hits += 1;
            return match r.clone() {
                CRes::Sat(m) => Q::Sat(merge(hint, &m)),
                CRes::Unsat => Q::Unsat,
                CRes::Unknown => Q::Unknown,
            };
        }
        for m in self.recent.iter().rev().chain(std::iter::once(hint)) {
            let mut ev = Evaluator::new(m);
            if cs.iter().rev().all(|c| ev.eval(*c).u64() == 1) {
                self.model_hits += 1;
                let mut part: Assign = Default::default();
                for v in &vars {
                    if let Some(b) = m.get(v) {
                        part.insert(*v, b.clone());
                    } else {
                        part.insert(*v, Bits::zero(cx().vars[*v as usize].1));
                    }
                }
                let part = Rc::new(part);
                self.cache.insert(cs, CRes::Sat(part.clone()));
                return Q::Sat(merge(hint, &part));
            }
        }
        let r = self.z3.check(&cs, &vars, self.timeout);
        match r {
            Res::Sat(m) => {
                let m = Rc::new(m);
                self.cache.insert(cs, CRes::Sat(m.clone()));
                let full = merge(hint, &m);
                self.recent.push(full.clone());
                if self.recent.len() > 6 {
                    self.recent.remove(0);
                }
                Q::Sat(full)
            }
            Res::Unsat => {
                self.cache.insert(cs, CRes::Unsat);
                Q::Unsat
            }
            Res::Unknown => {
                self.unknowns += 1;
                self.cache.insert(cs, CRes::Unknown);
                Q::Unknown
            }
        }
    }

    /// full, unsliced model of all constraints with the hash abstraction
    /// refined to real keccak values where possible.
    pub fn full_model(&mut self, pc: &[E], extra: E) -> Q {
        let mut all: Vec<E> = pc.to_vec();
        all.push(extra);
        let mut pins: Vec<E> = vec![];
        let solve = |me: &mut Solver, pins: &[E]| -> Res {
            let mut ex = all.clone();
            ex.extend(pins);
            let (mut cs, vars) = me.slice(&[], &ex, true);
            if cs.iter().any(|c| *c == fls()) {
                return Res::Unsat;
            }
            cs.retain(|c| *c != tru());
            let t = me.timeout;
            me.z3.check(&cs, &vars, t * 3)
        };
        let mut model = match solve(self, &[]) {
            Res::Sat(m) => m,
            Res::Unsat => return Q::Unsat,
            Res::Unknown => return Q::Unknown,
        };
        // refinement: pin hash inputs to concrete values in order of creation
        for i in 0..self.apps.len() {
            let Some((v, r)) = self.apps[i].out_var else { continue };
            if !model.contains_key(&v) && !model.contains_key(&r) {
                continue;
            }
            let mut ev = Evaluator::new(&model);
            let ins: Vec<u64> = self.apps[i].input.iter().map(|e| ev.eval(*e).u64()).collect();
            let mut a = [0u64; 25];
            a.copy_from_slice(&ins);
            keccak_f(&mut a);
            let mut pin = tru();
            let mut same = true;
            for (x, w, out) in [(v, 256, Bits::norm(256, a[..4].to_vec())), (r, 1344, Bits::norm(1344, a[4..].to_vec()))] {
                if !model.contains_key(&x) {
                    continue;
                }
                let xe = var(&cx().vars[x as usize].0.clone(), w);
                pin = and(pin, eq(xe, cbits(w, &out)));
                same &= model.get(&x) == Some(&out);
            }
            for (k, l) in self.apps[i].input.iter().enumerate() {
                pin = and(pin, eq(*l, cst(64, ins[k])));
            }
            if same {
                pins.push(pin);
                continue;
            }
            let mut p2 = pins.clone();
            p2.push(pin);
            if let Res::Sat(m) = solve(self, &p2) {
                model = m;
                pins = p2;
            }
        }
        Q::Sat(Rc::new(model))
    }
}

pub fn merge(base: &Rc<Assign>, m: &Rc<Assign>) -> Rc<Assign> {
    let mut r = (**base).clone();
    for (k, v) in m.iter() {
        r.insert(*k, v.clone());
    }
    Rc::new(r)
}

pub fn keccak_f(a: &mut [u64; 25]) {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
        0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
        0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
        0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
        0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
        0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    for r in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut last = a[1];
        for x in 0..24 {
            let t = a[PI[x]];
            a[PI[x]] = last.rotate_left(RHO[x]);
            last = t;
        }
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= RC[r];
    }
}
