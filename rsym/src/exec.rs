//! The symbolic interpreter.
use crate::bits::*;
use crate::expr::*;
use crate::hooks::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(E),
    A(Rc<Vec<Val>>),
}
impl Val {
    #[inline]
    pub fn norm(e: E) -> Val {
        match cval(e) {
            Some(v) => Val::C(v),
            None => Val::E(e),
        }
    }
    #[inline]
    pub fn e(&self, w: u32) -> E {
        match self {
            Val::C(v) => cst(w, *v),
            Val::E(e) => *e,
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::C(a), Val::C(b)) => a == b,
            (Val::E(a), Val::E(b)) => a == b,
            (Val::A(a), Val::A(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y)),
            _ => false,
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<E>>>, // per byte: 0 = concrete
}
impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: None }
    }
}

#[derive(Clone)]
pub struct Mem {
    pub base: u64, // first dynamic window
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub dst: u32,
    pub ret: Ty,
    pub allocas: Vec<u32>,
    pub catch: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Assign>,
    pub conc: FxMap<E, u64>,
    pub inputs: Vec<(String, E, u32)>, // name, expr, bytes
    pub choices: Vec<(String, u64)>,
    pub names: FxMap<u64, u32>,
    pub reach: Vec<String>,
    pub steps: u64,
    pub done: Option<End>,
    pub last_panic: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Assumed,
    Panic(String),
    Error(String),
}

pub struct Failure {
    pub label: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub choices: Vec<(String, u64)>,
    pub unknown: bool,
}

pub struct Engine {
    pub prog: &'static Program,
    pub consts: Vec<Rc<Obj>>,
    pub solver: Solver,
    pub failures: Vec<Failure>,
    pub witnesses: Vec<Failure>,
    pub errors: Vec<String>,
    pub reach: std::collections::BTreeMap<String, u64>,
    pub assert_labels: std::collections::BTreeMap<String, u64>,
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub merges: u64,
    pub optimistic: u32,
    pub asserts: u64,
    pub assert_queries: u64,
    pub inst: u64,
    pub used: Vec<bool>,
    pub max_paths: u64,
    pub deadline: Option<std::time::Instant>,
    /// stop this long after the first counterexample
    pub fail_grace: Option<std::time::Duration>,
    pub first_failure: Option<std::time::Instant>,
    pub trace: bool,
    pub fork_sites: std::collections::HashMap<String, u64>,
    pub fail_labels: std::collections::HashSet<String>,
    pub hookctx: HookCtx,
    pub panic_is_fail: bool,
    pub truncated: bool,
    pub profile: std::collections::HashMap<String, u64>,
}

pub enum Flow {
    Next,
    Jump,  // frame/ip already updated
    Dead,  // state finished
}

pub type R<T> = Result<T, Stop>;
pub enum Stop {
    /// retry the instruction after forking (others were pushed on work)
    Retry,
    Err(String),
    Panic(String),
    Dead,
}
pub fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

pub type Work = Vec<State>;

/// an address that depends on at most 8 symbolic bits: (source, address per
/// source value)
fn addr_table(e: E) -> Option<(E, Vec<u64>)> {
    if let Some(s) = tab_src(e) {
        return Some((s, crate::expr::column(e, s)));
    }
    let ps = pieces(e);
    let nc: Vec<E> = ps.iter().copied().filter(|p| !is_const(*p)).collect();
    let n: u32 = nc.iter().map(|p| width(*p)).sum();
    if n == 0 || n > 8 {
        return None;
    }
    let src = concat_all(&nc);
    if width(src) != n || is_const(src) || dom(src) != 1 << n {
        return None;
    }
    let mut out = vec![];
    for v in 0..1u64 << n {
        let mut left = n;
        let mut a = 0u64;
        for p in &ps {
            let w = width(*p);
            let x = match cval(*p) {
                Some(c) => c,
                None => {
                    left -= w;
                    v >> left & mask(w)
                }
            };
            a = a << (w % 64) | x;
        }
        out.push(a);
    }
    Some((src, out))
}

impl Engine {
    pub fn new(prog: &'static Program) -> Engine {
        cst(1, 0); // node 0 is reserved: never a byte
        let consts = prog.globals[..prog.nconst]
            .iter()
            .map(|g| Rc::new(Obj { size: g.data.len() as u64, data: g.data.clone(), sym: None }))
            .collect();
        Engine {
            prog,
            consts,
            solver: Solver::new(),
            failures: vec![],
            witnesses: vec![],
            errors: vec![],
            reach: Default::default(),
            assert_labels: Default::default(),
            paths: 0,
            assumed: 0,
            forks: 0,
            merges: 0,
            optimistic: 0,
            asserts: 0,
            assert_queries: 0,
            inst: 0,
            used: vec![false; prog.funcs.len()],
            max_paths: 200000,
            deadline: None,
            fail_grace: None,
            first_failure: None,
            trace: std::env::var("RSYM_TRACE").is_ok(),
            fork_sites: Default::default(),
            fail_labels: Default::default(),
            hookctx: HookCtx::default(),
            panic_is_fail: true,
            truncated: false,
            profile: Default::default(),
        }
    }
    pub fn initial(&self, f: &'static Func) -> State {
        let base = GLOB_BASE + self.prog.nconst as u64;
        let objs = self.prog.globals[self.prog.nconst..]
            .iter()
            .map(|g| Some(Rc::new(Obj { size: g.data.len() as u64, data: g.data.clone(), sym: None })))
            .collect();
        let fr = Frame {
            f,
            blk: 0,
            ip: 0,
            regs: vec![Val::C(0); f.nregs as usize],
            dst: u32::MAX,
            ret: Ty::Void,
            allocas: vec![],
            catch: false,
        };
        State {
            frames: vec![fr],
            mem: Mem { base, objs, free: vec![] },
            pc: vec![],
            model: Rc::new(Default::default()),
            conc: Default::default(),
            inputs: vec![],
            choices: vec![],
            names: Default::default(),
            reach: vec![],
            steps: 0,
            done: None,
            last_panic: String::new(),
        }
    }

    pub fn backtrace(st: &State) -> String {
        let v: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(14)
            .map(|f| format!("{:#}", rustc_demangle::demangle(&f.f.name)))
            .collect();
        v.join(" <- ")
    }

    // ------------------------------------------------------------ exploration

    /// run `init` and everything it forks into until the frame depth drops to
    /// `stop` (or the path ends); returns the surviving states.
    pub fn explore(&mut self, init: State, stop: usize) -> Vec<State> {
        let mut work: Work = vec![init];
        let mut out = vec![];
        while let Some(st) = work.pop() {
            if self.truncated {
                break;
            }
            if let Some(s) = self.run(st, stop, &mut work) {
                out.push(s);
            }
        }
        out
    }

    fn finish(&mut self, st: &mut State, e: End) {
        match &e {
            End::Ok => self.paths += 1,
            End::Assumed => self.assumed += 1,
            End::Panic(m) => {
                self.paths += 1;
                let l = format!("uncaught panic: {m}");
                self.report(st, tru(), &l);
            }
            End::Error(m) => {
                self.paths += 1;
                let l = format!("{m}\n    at {}", Self::backtrace(st));
                if !self.errors.contains(&l) {
                    self.errors.push(l);
                }
            }
        }
        if matches!(e, End::Ok) {
            let fresh: Vec<String> = st.reach.iter().filter(|r| !self.reach.contains_key(*r)).cloned().collect();
            if !fresh.is_empty() {
                if let Q::Sat(m) = self.solver.full_model(&st.pc, tru()) {
                    let w = Self::witness(st, &m, &fresh.join("|"));
                    self.witnesses.push(w);
                }
            }
            for r in std::mem::take(&mut st.reach) {
                *self.reach.entry(r).or_insert(0) += 1;
            }
        }
        st.done = Some(e);
    }

    /// Runs until the path ends (returns None for dead top-level paths, Some
    /// when the stop depth is reached).
    fn run(&mut self, mut st: State, stop: usize, work: &mut Work) -> Option<State> {
        let mut tick = 0u32;
        let mut lastq = self.solver.z3.queries;
        loop {
            if st.frames.len() <= stop {
                return Some(st);
            }
            tick += 1;
            if tick & 0xfff == 0 || self.solver.z3.queries != lastq {
                lastq = self.solver.z3.queries;
                if let (Some(t), Some(g)) = (self.first_failure, self.fail_grace) {
                    // a counterexample is known: look only a little further
                    if t.elapsed() > g {
                        self.truncated = true;
                        return None;
                    }
                }
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        self.truncated = true;
                        self.errors.push(format!("time budget exceeded at {}", Self::backtrace(&st)));
                        return None;
                    }
                }
            }
            self.inst += 1;
            match self.step(&mut st, work) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(Stop::Dead) => {
                    return None;
                }
                Err(Stop::Panic(m)) => {
                    st.last_panic = m.clone();
                    // unwind to the nearest catch marker
                    let pos = st.frames.iter().rposition(|f| f.catch);
                    match pos {
                        None => {
                            self.finish(&mut st, End::Panic(m));
                            return None;
                        }
                        Some(p) => {
                            if self.trace {
                                eprintln!("[panic caught] {m} at {}", Self::backtrace(&st));
                            }
                            let dst = st.frames[p].dst;
                            while st.frames.len() > p {
                                let fr = st.frames.pop().unwrap();
                                st.mem.release(&fr.allocas);
                            }
                            let top = st.frames.last_mut().unwrap();
                            if dst != u32::MAX {
                                top.regs[dst as usize] = Val::C(1);
                            }
                            top.ip += 1;
                        }
                    }
                }
                Err(Stop::Err(m)) => {
                    self.finish(&mut st, End::Error(m));
                    return None;
                }
            }
        }
    }

    // ------------------------------------------------------------ conditions

    pub fn site(&self, st: &State) -> String {
        let f = st.frames.last().unwrap();
        format!("{:#} b{}i{}", rustc_demangle::demangle(&f.f.name), f.blk, f.ip)
    }

    /// Which truth values can `c` take?  Returns (t, f) models.
    pub fn decide(&mut self, st: &mut State, c: E) -> (Option<Rc<Assign>>, Option<Rc<Assign>>) {
        if let Some(v) = cval(c) {
            let m = Some(st.model.clone());
            return if v == 1 { (m, None) } else { (None, m) };
        }
        if st.pc.contains(&c) {
            return (Some(st.model.clone()), None);
        }
        let nc = not(c);
        if st.pc.contains(&nc) {
            return (None, Some(st.model.clone()));
        }
        // conditions on one small source: decide over its domain together
        // with the path conditions on the same source
        if let Some(s) = tab_src(c) {
            let col = column(c, s);
            let mut ok: Vec<bool> = vec![true; col.len()];
            for p in st.pc.iter() {
                if tab_src(*p) == Some(s) {
                    let q = column(*p, s);
                    ok.iter_mut().zip(q.iter()).for_each(|(o, v)| *o &= *v == 1);
                }
            }
            let can = |v: u64| col.iter().zip(ok.iter()).any(|(x, o)| *o && *x == v);
            match (can(1), can(0)) {
                (true, false) => return (Some(st.model.clone()), None),
                (false, true) => return (None, Some(st.model.clone())),
                _ => {}
            }
            if self.optimistic > 0 {
                return (Some(st.model.clone()), Some(st.model.clone()));
            }
        }
        let v = Evaluator::new(&st.model).eval(c).u64() == 1;
        let other = if v { nc } else { c };
        if self.trace {
            eprintln!("[query] {} {}", self.site(st), show(c, std::env::var("RSYM_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(5)));
        }
        let q = self.solver.check(&st.pc, other, &st.model);
        let om = match q {
            Q::Sat(m) => Some(m),
            Q::Unsat => None,
            Q::Unknown => Some(st.model.clone()),
        };
        let me = Some(st.model.clone());
        if v {
            (me, om)
        } else {
            // the current model may come from an approximated query: make sure
            // that at least one side is considered feasible
            (om, me)
        }
    }

    /// Branch on `c`: returns the truth value on the current path, pushing the
    /// other side (to be resumed at the same instruction) on `work`.
    pub fn branch(&mut self, st: &mut State, c: E, work: &mut Work) -> bool {
        if let Some(v) = cval(c) {
            return v == 1;
        }
        let (t, f) = self.decide(st, c);
        match (t, f) {
            (Some(t), Some(f)) => {
                self.forks += 1;
                if self.trace || self.forks % 64 == 0 {
                    let s = self.site(st);
                    if self.trace {
                        eprintln!("[fork] {} on {}", s, show(c, std::env::var("RSYM_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(5)));
                    }
                }
                let s = self.site(st);
                *self.fork_sites.entry(s).or_insert(0) += 1;
                let mut o = st.clone();
                o.pc.push(not(c));
                o.model = f;
                work.push(o);
                st.pc.push(c);
                st.model = t;
                true
            }
            (Some(_), None) => true,
            (None, Some(_)) => false,
            (None, None) => unreachable!(),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> bool {
        if let Some(v) = cval(c) {
            return v == 1;
        }
        if Evaluator::new(&st.model).eval(c).u64() != 1 {
            match self.solver.check(&st.pc, c, &st.model) {
                Q::Sat(m) => st.model = m,
                Q::Unsat => return false,
                Q::Unknown => {}
            }
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
        true
    }
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u32, work: &mut Work) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::A(_) => err("aggregate concretised"),
            Val::E(e) => self.conc_e(st, *e, w, work),
        }
    }
    pub fn conc_e(&mut self, st: &mut State, e: E, _w: u32, work: &mut Work) -> R<u64> {
        if let Some(b) = const_bits(e) {
            return Ok(b.u64());
        }
        if let Some(v) = st.conc.get(&e) {
            return Ok(*v);
        }
        let v = Evaluator::new(&st.model).eval(e);
        let k = cbits(width(e), &v);
        let c = eq(e, k);
        let (t, f) = self.decide(st, c);
        if let Some(f) = f {
            if t.is_some() {
                self.forks += 1;
                let s = format!("conc {}", self.site(st));
                if self.trace {
                    eprintln!("[fork conc] {} on {}", s, show(e, 5));
                }
                *self.fork_sites.entry(s).or_insert(0) += 1;
                let mut o = st.clone();
                o.pc.push(not(c));
                o.model = f;
                work.push(o);
            } else {
                return err("inconsistent concretisation");
            }
        }
        if cval(c).is_none() && !st.pc.contains(&c) {
            st.pc.push(c);
        }
        st.conc.insert(e, v.u64());
        Ok(v.u64())
    }

    // ------------------------------------------------------------ assertions

    pub fn check_assert(&mut self, st: &mut State, c: E, label: &str) -> bool {
        self.asserts += 1;
        if cval(c) == Some(1) {
            return true;
        }
        self.assert_queries += 1;
        let nc = not(c);
        match self.solver.check(&st.pc, nc, &st.model) {
            Q::Unsat => true,
            Q::Sat(_) => {
                self.report(st, nc, label);
                self.assume(st, c)
            }
            Q::Unknown => {
                self.report_unknown(st, label);
                self.assume(st, c)
            }
        }
    }
    fn witness(st: &State, m: &Assign, label: &str) -> Failure {
        let mut ev = Evaluator::new(m);
        let inputs = st
            .inputs
            .iter()
            .map(|(n, e, len)| {
                let b = ev.eval(*e).to_le_bytes(width(*e));
                (n.clone(), b[..*len as usize].to_vec())
            })
            .collect();
        Failure { label: label.to_string(), inputs, choices: st.choices.clone(), unknown: false }
    }
    fn report_unknown(&mut self, st: &State, label: &str) {
        let l = format!("solver gave no answer for assertion '{label}' at {}", Self::backtrace(st));
        if !self.errors.contains(&l) {
            self.errors.push(l);
        }
    }
    pub fn report(&mut self, st: &State, nc: E, label: &str) {
        if self.fail_labels.contains(label) && self.failures.len() >= 3 {
            return;
        }
        if self.failures.iter().filter(|f| f.label == label).count() >= 3 {
            return;
        }
        match self.solver.full_model(&st.pc, nc) {
            Q::Sat(m) => {
                self.fail_labels.insert(label.to_string());
                let f = Self::witness(st, &m, label);
                self.failures.push(f);
                self.first_failure.get_or_insert_with(std::time::Instant::now);
                if std::env::var("RSYM_FAILPC").is_ok() {
                    eprintln!("FAIL {label}\n  cond {}", show(nc, 8));
                    for p in &st.pc {
                        eprintln!("  pc {}", show(*p, 6));
                    }
                }
            }
            Q::Unsat => {} // infeasible under the exact hash axioms
            Q::Unknown => self.report_unknown(st, label),
        }
    }

    // ------------------------------------------------------------ memory

    #[inline]
    pub fn obj<'b>(&'b self, st: &'b State, a: u64) -> R<(&'b Rc<Obj>, u64)> {
        let win = a >> 32;
        let off = a & 0xffff_ffff;
        if win >= st.mem.base {
            if let Some(Some(o)) = st.mem.objs.get((win - st.mem.base) as usize) {
                return Ok((o, off));
            }
        } else if win >= GLOB_BASE {
            return Ok((&self.consts[(win - GLOB_BASE) as usize], off));
        }
        err(format!("access to unmapped address {a:#x}"))
    }
    pub fn read_bytes(&self, st: &State, a: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(st, a)?;
        if off + n > o.size {
            return err(format!("out of bounds read of {n} at {a:#x} (object size {})", o.size));
        }
        let mut v = Vec::with_capacity(n as usize);
        for i in off..off + n {
            let s = o.sym.as_ref().map(|s| s[i as usize]).unwrap_or(0);
            v.push(if s != 0 { s } else { cst(8, o.data[i as usize] as u64) });
        }
        Ok(v)
    }
    pub fn read_conc(&self, st: &State, a: u64, n: u64) -> R<Option<Vec<u8>>> {
        if n == 0 {
            return Ok(Some(vec![]));
        }
        let (o, off) = self.obj(st, a)?;
        if off + n > o.size {
            return err(format!("out of bounds read of {n} at {a:#x} (object size {})", o.size));
        }
        let r = off as usize..(off + n) as usize;
        if let Some(s) = &o.sym {
            if s[r.clone()].iter().any(|x| *x != 0) {
                return Ok(None);
            }
        }
        Ok(Some(o.data[r].to_vec()))
    }
    pub fn load_int(&self, st: &State, a: u64, size: u64, w: u32) -> R<Val> {
        let (o, off) = self.obj(st, a)?;
        if off + size > o.size {
            return err(format!("out of bounds load of {size} at {a:#x} (object size {})", o.size));
        }
        let nb = ((w + 7) / 8) as u64;
        let r = off as usize..(off + nb) as usize;
        let symb = match &o.sym {
            Some(s) => s[r.clone()].iter().any(|x| *x != 0),
            None => false,
        };
        if !symb {
            if w <= 64 {
                let mut v = 0u64;
                for (i, b) in o.data[r].iter().enumerate() {
                    v |= (*b as u64) << (8 * i);
                }
                return Ok(Val::C(v & mask(w)));
            }
            return Ok(Val::E(cbits(w, &Bits::from_le_bytes(w, &o.data[r]))));
        }
        let s = o.sym.as_ref().unwrap();
        let mut e = None;
        for i in r {
            let b = if s[i] != 0 { s[i] } else { cst(8, o.data[i] as u64) };
            e = Some(match e {
                None => b,
                Some(x) => concat(b, x),
            });
        }
        Ok(Val::norm(resize(e.unwrap(), w)))
    }
    pub fn load(&self, st: &State, a: u64, size: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load_int(st, a, size, *w),
            Ty::Agg(t) => {
                if t.vec {
                    let Ty::Int(ew) = t.fields[0].1 else { return err("vector load") };
                    if ew % 8 != 0 {
                        // bit vector: load as one integer
                        let n = t.fields.len() as u32;
                        let v = self.load_int(st, a, t.size, n * ew)?;
                        return Ok(int_to_lanes(&v, n, ew));
                    }
                }
                let mut v = vec![];
                for (off, t) in &t.fields {
                    let w = match t {
                        Ty::Int(w) => ((w + 7) / 8) as u64,
                        Ty::Agg(a) => a.size,
                        _ => 0,
                    };
                    v.push(self.load(st, a + off, w, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err("load of unsupported type"),
        }
    }
    pub fn obj_mut<'b>(&self, st: &'b mut State, a: u64, n: u64) -> R<(&'b mut Obj, usize)> {
        let win = a >> 32;
        let off = a & 0xffff_ffff;
        if win < st.mem.base {
            return err(format!("write to constant or unmapped address {a:#x}"));
        }
        match st.mem.objs.get_mut((win - st.mem.base) as usize) {
            Some(Some(o)) => {
                if off + n > o.size {
                    return err(format!("out of bounds write of {n} at {a:#x} (object size {})", o.size));
                }
                Ok((Rc::make_mut(o), off as usize))
            }
            _ => err(format!("write to unmapped address {a:#x}")),
        }
    }
    pub fn write_bytes(&self, st: &mut State, a: u64, b: &[E]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, a, b.len() as u64)?;
        for (i, e) in b.iter().enumerate() {
            put_byte(o, off + i, *e);
        }
        Ok(())
    }
    pub fn write_conc(&self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, a, b.len() as u64)?;
        o.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut o.sym {
            s[off..off + b.len()].iter_mut().for_each(|x| *x = 0);
        }
        Ok(())
    }
    pub fn store(&self, st: &mut State, a: u64, size: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => {
                let nb = size.min(((w + 7) / 8) as u64);
                let (o, off) = self.obj_mut(st, a, size)?;
                match v {
                    Val::C(c) => {
                        for i in 0..nb as usize {
                            o.data[off + i] = if i < 8 { (c >> (8 * i)) as u8 } else { 0 };
                        }
                        if let Some(s) = &mut o.sym {
                            s[off..off + nb as usize].iter_mut().for_each(|x| *x = 0);
                        }
                    }
                    Val::E(e) => {
                        let e = zext(*e, nb as u32 * 8);
                        if let Some(b) = const_bits(e) {
                            let by = b.to_le_bytes(nb as u32 * 8);
                            o.data[off..off + by.len()].copy_from_slice(&by);
                            if let Some(s) = &mut o.sym {
                                s[off..off + by.len()].iter_mut().for_each(|x| *x = 0);
                            }
                        } else {
                            for i in 0..nb as usize {
                                put_byte(o, off + i, extract(e, 8 * i as u32, 8));
                            }
                        }
                    }
                    Val::A(_) => return err("aggregate stored as int"),
                }
                Ok(())
            }
            Ty::Agg(t) => {
                let Val::A(vs) = v else { return err("scalar stored as aggregate") };
                if t.vec {
                    let Ty::Int(ew) = t.fields[0].1 else { return err("vector store") };
                    if ew % 8 != 0 {
                        let e = lanes_to_int(v, ew);
                        return self.store(st, a, t.size, &Ty::Int(vs.len() as u32 * ew), &e);
                    }
                }
                for ((off, t), x) in t.fields.iter().zip(vs.iter()) {
                    let w = match t {
                        Ty::Int(w) => ((w + 7) / 8) as u64,
                        Ty::Agg(a) => a.size,
                        _ => 0,
                    };
                    self.store(st, a + off, w, t, x)?;
                }
                Ok(())
            }
            _ => err("store of unsupported type"),
        }
    }
    pub fn copy(&self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (so, soff) = {
            let (o, off) = self.obj(st, s)?;
            (o.clone(), off as usize)
        };
        if soff as u64 + n > so.size {
            return err(format!("out of bounds copy source {s:#x}+{n} (object size {})", so.size));
        }
        let n = n as usize;
        // (so keeps a reference: same-object copies clone the object once)
        let (o, off) = self.obj_mut(st, d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&so.data[soff..soff + n]);
        match &so.sym {
            Some(ss) if ss[soff..soff + n].iter().any(|x| *x != 0) => {
                let sz = o.size as usize;
                let ds = o.sym.get_or_insert_with(|| Box::new(vec![0; sz]));
                ds[off..off + n].copy_from_slice(&ss[soff..soff + n]);
            }
            _ => {
                if let Some(ds) = &mut o.sym {
                    ds[off..off + n].iter_mut().for_each(|x| *x = 0);
                }
            }
        }
        Ok(())
    }

    /// load through a possibly symbolic pointer
    fn load_sym(&mut self, st: &mut State, p: &Val, size: u64, ty: &Ty, work: &mut Work) -> R<Val> {
        let e = match p {
            Val::C(a) => return self.load(st, *a, size, ty),
            Val::E(e) => *e,
            _ => return err("bad pointer"),
        };
        if let Some(a) = st.conc.get(&e) {
            let a = *a;
            return self.load(st, a, size, ty);
        }
        if let Ty::Int(w) = ty {
            // enumerate the possible addresses
            let mut addrs: Vec<(u64, E)> = vec![];
            let mut complete = false;
            if let Some((src, addr)) = addr_table(e) {
                let mut ok = *w <= 64;
                let mut t = vec![];
                for a in addr {
                    match if ok { self.load(st, a, size, ty) } else { break } {
                        Ok(Val::C(c)) => t.push(c),
                        _ => ok = false,
                    }
                }
                if ok {
                    return Ok(Val::norm(mk_table(src, *w, t)));
                }
            }
            if self.trace {
                eprintln!("[load enum] {} {}", self.site(st), show(e, 8));
            }
            let mut extra = st.pc.clone();
            for _ in 0..260 {
                let m = match addrs.len() {
                    0 => Q::Sat(st.model.clone()),
                    _ => self.solver.check(&extra, ne(e, cst(64, addrs.last().unwrap().0)), &st.model),
                };
                match m {
                    Q::Sat(m) => {
                        let a = Evaluator::new(&m).eval(e).u64();
                        if addrs.iter().any(|x| x.0 == a) {
                            break;
                        }
                        if let Some(l) = addrs.last() {
                            extra.push(ne(e, cst(64, l.0)));
                        }
                        addrs.push((a, eq(e, cst(64, a))));
                    }
                    Q::Unsat => {
                        complete = true;
                        break;
                    }
                    Q::Unknown => break,
                }
            }
            if complete {
                let mut r: Option<E> = None;
                let mut ok = true;
                for (a, c) in &addrs {
                    match self.load(st, *a, size, ty) {
                        Ok(v) => {
                            let x = v.e(*w);
                            // never merge distinct pointers
                            r = Some(match r {
                                None => x,
                                Some(o) => ite(*c, x, o),
                            });
                        }
                        Err(_) => ok = false,
                    }
                }
                if ok {
                    return Ok(Val::norm(r.unwrap()));
                }
            }
        }
        let a = self.conc_e(st, e, 64, work)?;
        self.load(st, a, size, ty)
    }

    // ------------------------------------------------------------ stepping

    #[inline]
    fn get(&self, st: &State, o: &Opd) -> R<Val> {
        Ok(match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::E(e) => Val::E(*e),
            Opd::Agg(v) => {
                let mut x = vec![];
                for o in v {
                    x.push(self.get(st, o)?);
                }
                Val::A(Rc::new(x))
            }
            Opd::Bad(s) => return err(format!("unsupported operand: {s}")),
        })
    }
    #[inline]
    pub fn set(st: &mut State, dst: u32, v: Val) {
        if dst != u32::MAX {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let from = fr.blk;
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (dst, inc) in &b.phis {
                let Some((_, o)) = inc.iter().find(|x| x.0 == from) else { return err("phi without incoming edge") };
                vals.push((*dst, self.get(st, o)?));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }

    fn step(&mut self, st: &mut State, work: &mut Work) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let inst: &'static Inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
        match inst {
            Inst::Br(t) => return self.jump(st, *t),
            Inst::CondBr(c, a, b) => {
                let v = self.get(st, c)?;
                let t = match v {
                    Val::C(x) => x == 1,
                    Val::E(e) => self.branch(st, e, work),
                    _ => return err("cond"),
                };
                return self.jump(st, if t { *a } else { *b });
            }
            Inst::Switch { c, w, cases, def } => {
                let v = self.get(st, c)?;
                match v {
                    Val::C(x) if *w <= 64 => {
                        for (_, k, b) in cases {
                            if *k == Some(x) {
                                return self.jump(st, *b);
                            }
                        }
                        return self.jump(st, *def);
                    }
                    _ => {
                        let e = v.e(*w);
                        if let Some(x) = st.conc.get(&e).copied() {
                            for (k, _, b) in cases {
                                if const_bits(*k).unwrap().u64() == x {
                                    return self.jump(st, *b);
                                }
                            }
                            return self.jump(st, *def);
                        }
                        // group cases per destination
                        let mut dests: Vec<(u32, E)> = vec![];
                        let mut any = fls();
                        for (k, _, b) in cases {
                            let c = eq(e, *k);
                            any = or(any, c);
                            match dests.iter_mut().find(|d| d.0 == *b) {
                                Some(d) => d.1 = or(d.1, c),
                                None => dests.push((*b, c)),
                            }
                        }
                        match dests.iter_mut().find(|d| d.0 == *def) {
                            Some(d) => d.1 = or(d.1, not(any)),
                            None => dests.push((*def, not(any))),
                        }
                        let n = dests.len();
                        for (i, (b, c)) in dests.iter().enumerate() {
                            if i + 1 == n {
                                return self.jump(st, *b);
                            }
                            if self.branch(st, *c, work) {
                                return self.jump(st, *b);
                            }
                        }
                        unreachable!()
                    }
                }
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some(o) => Some(self.get(st, o)?),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                st.mem.release(&fr.allocas);
                if st.frames.is_empty() {
                    self.finish(st, End::Ok);
                    return Err(Stop::Dead);
                }
                let top = st.frames.last_mut().unwrap();
                if fr.catch {
                    if fr.dst != u32::MAX {
                        top.regs[fr.dst as usize] = Val::C(0);
                    }
                } else if let Some(v) = v {
                    if fr.dst != u32::MAX {
                        top.regs[fr.dst as usize] = v;
                    }
                }
                top.ip += 1;
                return Ok(());
            }
            Inst::Unreachable => return err("reached 'unreachable'"),
            Inst::Bin { op, dst, ty, a, b } => {
                let (a, b) = (self.get(st, a)?, self.get(st, b)?);
                let v = match ty {
                    Ty::Int(w) => bin(*op, *w, &a, &b)?,
                    Ty::Agg(t) => lanes2(t, &a, &b, |w, x, y| bin(*op, w, x, y))?,
                    _ => return err("bin type"),
                };
                Self::set(st, *dst, v);
            }
            Inst::Icmp { dst, pred, ty, a, b } => {
                let (a, b) = (self.get(st, a)?, self.get(st, b)?);
                let v = match ty {
                    Ty::Int(w) => icmp(*pred, *w, &a, &b),
                    Ty::Agg(t) => lanes2(t, &a, &b, |w, x, y| Ok(icmp(*pred, w, x, y)))?,
                    _ => return err("icmp type"),
                };
                Self::set(st, *dst, v);
            }
            Inst::Select { dst, ty, c, a, b, vc } => {
                let c = self.get(st, c)?;
                let (a, b) = (self.get(st, a)?, self.get(st, b)?);
                let v = if *vc {
                    let (Val::A(c), Val::A(a), Val::A(b)) = (&c, &a, &b) else { return err("vselect") };
                    let Ty::Agg(t) = ty else { return err("vselect") };
                    let mut r = vec![];
                    for i in 0..c.len() {
                        r.push(select(&c[i], &a[i], &b[i], &t.fields[i].1)?);
                    }
                    Val::A(Rc::new(r))
                } else {
                    select(&c, &a, &b, ty)?
                };
                Self::set(st, *dst, v);
            }
            Inst::Cast { k, dst, from, to, a } => {
                let a = self.get(st, a)?;
                let v = cast(*k, from, to, &a)?;
                Self::set(st, *dst, v);
            }
            Inst::Alloca { dst, size, n } => {
                let n = match self.get(st, n)? {
                    Val::C(n) => n,
                    _ => return err("symbolic alloca"),
                };
                let (a, id) = st.mem.alloc(*size * n);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(id);
                fr.regs[*dst as usize] = Val::C(a);
            }
            Inst::Load { dst, ty, size, p } => {
                let p = self.get(st, p)?;
                let v = match &p {
                    Val::C(a) => self.load(st, *a, *size, ty)?,
                    _ => self.load_sym(st, &p, *size, ty, work)?,
                };
                Self::set(st, *dst, v);
            }
            Inst::Store { ty, size, v, p } => {
                let p = self.get(st, p)?;
                let v = self.get(st, v)?;
                let a = self.conc(st, &p, 64, work)?;
                self.store(st, a, *size, ty, &v)?;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.get(st, base)?;
                let mut conc = match &b {
                    Val::C(x) => Some(x.wrapping_add(*off)),
                    _ => None,
                };
                let mut vals = Vec::with_capacity(idx.len());
                for (o, w, s) in idx {
                    let v = self.get(st, o)?;
                    if let (Some(c), Val::C(x)) = (conc, &v) {
                        conc = Some(c.wrapping_add(sx(*x, *w).wrapping_mul(*s)));
                    } else {
                        conc = None;
                    }
                    vals.push((v, *w, *s));
                }
                let v = match conc {
                    Some(c) => Val::C(c),
                    None => {
                        let mut e = add(b.e(64), cst(64, *off));
                        for (v, w, s) in vals {
                            let i = v.e(w);
                            let i = if w < 64 { sext(i, 64) } else { i };
                            e = add(e, mul(i, cst(64, s)));
                        }
                        Val::norm(e)
                    }
                };
                Self::set(st, *dst, v);
            }
            Inst::Call(c) => {
                let callee = self.get(st, &c.callee)?;
                let fa = self.conc(st, &callee, 64, work)?;
                if fa >> 32 != FN_WINDOW {
                    return err(format!("call of non-function address {fa:#x}"));
                }
                let fi = ((fa & 0xffff_ffff) / 16 - 1) as usize;
                let fun: &'static Func = &self.prog.funcs[fi];
                let mut args = Vec::with_capacity(c.args.len());
                for a in &c.args {
                    args.push(self.get(st, a)?);
                }
                if fun.hook != 0 {
                    match self.hook(fun, fi, st, c, &args, work)? {
                        HookRes::Value(v) => {
                            if let Some(v) = v {
                                Self::set(st, c.dst, v);
                            }
                        }
                        HookRes::Entered => return Ok(()),
                        HookRes::Fallthrough => return self.enter(fi, fun, st, c.dst, &c.ret, args, false, work),
                        HookRes::Redirect(g) => {
                            let fun = &self.prog.funcs[g];
                            return self.enter(g, fun, st, c.dst, &c.ret, args, false, work);
                        }
                    }
                } else {
                    return self.enter(fi, fun, st, c.dst, &c.ret, args, false, work);
                }
            }
            Inst::ExtractVal { dst, v, ix } => {
                let mut v = self.get(st, v)?;
                for i in ix {
                    let Val::A(a) = &v else { return err("extractvalue") };
                    v = a[*i as usize].clone();
                }
                Self::set(st, *dst, v);
            }
            Inst::InsertVal { dst, v, e, ix } => {
                let v = self.get(st, v)?;
                let e = self.get(st, e)?;
                let r = insert(v, &e, ix)?;
                Self::set(st, *dst, r);
            }
            Inst::ExtractElt { dst, v, i, iw } => {
                let v = self.get(st, v)?;
                let i = self.get(st, i)?;
                let i = self.conc(st, &i, *iw, work)?;
                let Val::A(a) = &v else { return err("extractelement") };
                Self::set(st, *dst, a[i as usize].clone());
            }
            Inst::InsertElt { dst, v, e, i, iw } => {
                let v = self.get(st, v)?;
                let e = self.get(st, e)?;
                let i = self.get(st, i)?;
                let i = self.conc(st, &i, *iw, work)?;
                let r = insert(v, &e, &[i as u32])?;
                Self::set(st, *dst, r);
            }
            Inst::Shuffle { dst, a, b, mask } => {
                let (a, b) = (self.get(st, a)?, self.get(st, b)?);
                let (Val::A(a), Val::A(b)) = (&a, &b) else { return err("shuffle") };
                let r = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            Val::C(0)
                        } else if (*m as usize) < a.len() {
                            a[*m as usize].clone()
                        } else {
                            b[*m as usize - a.len()].clone()
                        }
                    })
                    .collect();
                Self::set(st, *dst, Val::A(Rc::new(r)));
            }
            Inst::CmpXchg { dst, ty, size, p, c, n } => {
                let p = self.get(st, p)?;
                let a = self.conc(st, &p, 64, work)?;
                let c = self.get(st, c)?;
                let n = self.get(st, n)?;
                let old = self.load(st, a, *size, ty)?;
                let eqv = icmp(32, ty.w(), &old, &c);
                let Val::C(t) = eqv else { return err("symbolic cmpxchg") };
                if t == 1 {
                    self.store(st, a, *size, ty, &n)?;
                }
                Self::set(st, *dst, Val::A(Rc::new(vec![old, Val::C(t)])));
            }
            Inst::Rmw { dst, op, ty, size, p, v } => {
                let p = self.get(st, p)?;
                let a = self.conc(st, &p, 64, work)?;
                let v = self.get(st, v)?;
                let old = self.load(st, a, *size, ty)?;
                let w = ty.w();
                let n = match op {
                    0 => v,
                    1 => bin(Bin::Add, w, &old, &v)?,
                    2 => bin(Bin::Sub, w, &old, &v)?,
                    3 => bin(Bin::And, w, &old, &v)?,
                    5 => bin(Bin::Or, w, &old, &v)?,
                    6 => bin(Bin::Xor, w, &old, &v)?,
                    _ => return err("atomicrmw op"),
                };
                self.store(st, a, *size, ty, &n)?;
                Self::set(st, *dst, old);
            }
            Inst::Copy { dst, a } => {
                let v = self.get(st, a)?;
                Self::set(st, *dst, v);
            }
            Inst::Bad(s) => return err(format!("unsupported instruction: {s}")),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    /// push a frame for `fun`
    pub fn push(&mut self, fi: usize, fun: &'static Func, st: &mut State, dst: u32, ret: &Ty, args: Vec<Val>, catch: bool) -> R<()> {
        if !fun.defined {
            return err(format!("call of undefined function {}", rustc_demangle::demangle(&fun.name)));
        }
        self.used[fi] = true;
        if st.frames.len() > 900 {
            return err("call depth");
        }
        let mut regs = args;
        regs.truncate(fun.params.len());
        regs.resize(fun.nregs as usize, Val::C(0));
        st.frames.push(Frame { f: fun, blk: 0, ip: 0, regs, dst, ret: ret.clone(), allocas: vec![], catch });
        Ok(())
    }
    pub fn enter(&mut self, fi: usize, fun: &'static Func, st: &mut State, dst: u32, ret: &Ty, args: Vec<Val>, catch: bool, work: &mut Work) -> R<()> {
        let depth = st.frames.len();
        self.push(fi, fun, st, dst, ret, args, catch)?;
        if !fun.merge {
            return Ok(());
        }
        // function-level path merging
        let base_pc = st.pc.len();
        let base_choices = st.choices.len();
        let init = std::mem::replace(st, Self::dead_state(st));
        // inside, both sides of small-domain conditions are explored without
        // asking the solver; merging discards the distinction
        let opt = crate::hooks::is_merge_third_party(&fun.name) as u32;
        self.optimistic += opt;
        let outs = self.explore(init, depth);
        self.optimistic -= opt;
        let mut merged: Vec<State> = vec![];
        let mut others: Vec<State> = vec![];
        for s in outs {
            if s.frames.len() != depth || s.choices.len() != base_choices || s.pc.len() < base_pc {
                others.push(s);
                continue;
            }
            let mut cur = s;
            let mut i = 0;
            while i < merged.len() {
                if let Some(m) = self.merge2(&merged[i], &cur, base_pc, dst, ret) {
                    merged.remove(i);
                    cur = m;
                    self.merges += 1;
                    i = 0;
                } else {
                    i += 1;
                }
            }
            merged.push(cur);
        }
        merged.extend(others);
        if opt > 0 && merged.len() > 1 {
            let all = std::mem::take(&mut merged);
            for mut s in all {
                let own: Vec<E> = s.pc.split_off(base_pc);
                let c = own.iter().fold(tru(), |x, y| and(x, *y));
                if cval(c) == Some(0) {
                    continue;
                }
                if Evaluator::new(&s.model).eval(c).u64() != 1 {
                    match self.solver.check(&s.pc, c, &s.model) {
                        Q::Sat(m) => s.model = m,
                        Q::Unsat => continue,
                        Q::Unknown => {}
                    }
                }
                s.pc.extend(own);
                merged.push(s);
            }
        }
        match merged.pop() {
            None => Err(Stop::Dead),
            Some(s) => {
                *st = s;
                work.extend(merged);
                Ok(())
            }
        }
    }
    fn dead_state(st: &State) -> State {
        State {
            frames: vec![],
            mem: Mem { base: st.mem.base, objs: vec![], free: vec![] },
            pc: vec![],
            model: st.model.clone(),
            conc: Default::default(),
            inputs: vec![],
            choices: vec![],
            names: Default::default(),
            reach: vec![],
            steps: 0,
            done: None,
            last_panic: String::new(),
        }
    }

    fn looks_like_ptr(&self, st: &State, v: u64) -> bool {
        let w = v >> 32;
        w >= 1 && w < st.mem.base + st.mem.objs.len() as u64 + 64
    }

    fn merge2(&mut self, a: &State, b: &State, base: usize, dst: u32, ret: &Ty) -> Option<State> {
        let mut p = base;
        while p < a.pc.len() && p < b.pc.len() && a.pc[p] == b.pc[p] {
            p += 1;
        }
        let conj = |v: &[E]| v.iter().fold(tru(), |x, y| and(x, *y));
        let ca = conj(&a.pc[p..]);
        let cb = conj(&b.pc[p..]);
        if cval(ca).is_some() || cval(cb).is_some() {
            return None;
        }
        let mut m = a.clone();
        // return value
        let n = a.frames.len();
        for k in 0..n {
            let (fa, fb) = (&a.frames[k], &b.frames[k]);
            if fa.blk != fb.blk || fa.ip != fb.ip {
                return None;
            }
            if k + 1 < n {
                continue;
            }
            for (r, (x, y)) in fa.regs.iter().zip(fb.regs.iter()).enumerate() {
                if x.same(y) {
                    continue;
                }
                if r as u32 != dst {
                    return None;
                }
                m.frames[k].regs[r] = self.merge_val(a, ca, x, y, ret)?;
            }
        }
        // memory
        let len = a.mem.objs.len().max(b.mem.objs.len());
        m.mem.objs.resize(len, None);
        for i in 0..len {
            let oa = a.mem.objs.get(i).and_then(|x| x.as_ref());
            let ob = b.mem.objs.get(i).and_then(|x| x.as_ref());
            match (oa, ob) {
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) {
                        continue;
                    }
                    if x.size != y.size {
                        return None;
                    }
                    let mut o = (**x).clone();
                    let get = |o: &Obj, k: usize| o.sym.as_ref().map(|s| s[k]).unwrap_or(0);
                    let mut changed = false;
                    let sz = x.size as usize;
                    let mut k = 0;
                    while k < sz {
                        let (sa, sb) = (get(x, k), get(y, k));
                        if sa == sb && (sa != 0 || x.data[k] == y.data[k]) {
                            k += 1;
                            continue;
                        }
                        // distinct concrete pointers are never merged
                        let al = k & !7;
                        if al + 8 <= sz {
                            let word = |o: &Obj| {
                                if (al..al + 8).any(|q| get(o, q) != 0) {
                                    None
                                } else {
                                    Some(u64::from_le_bytes(o.data[al..al + 8].try_into().unwrap()))
                                }
                            };
                            if let (Some(wa), Some(wb)) = (word(x), word(y)) {
                                if self.looks_like_ptr(a, wa) && self.looks_like_ptr(a, wb) && wa != wb {
                                    return None;
                                }
                            }
                        }
                        let ea = if sa != 0 { sa } else { cst(8, x.data[k] as u64) };
                        let eb = if sb != 0 { sb } else { cst(8, y.data[k] as u64) };
                        put_byte(&mut o, k, ite(ca, ea, eb));
                        changed = true;
                        k += 1;
                    }
                    if changed {
                        m.mem.objs[i] = Some(Rc::new(o));
                    }
                }
                (None, Some(y)) => m.mem.objs[i] = Some(y.clone()),
                _ => {}
            }
        }
        m.mem.free = (0..len as u32).filter(|i| m.mem.objs[*i as usize].is_none()).rev().collect();
        if Evaluator::new(&a.model).eval(ca).u64() != 1 && Evaluator::new(&b.model).eval(cb).u64() == 1 {
            m.model = b.model.clone();
        }
        m.pc.truncate(p);
        let any = or(ca, cb);
        if cval(any) != Some(1) {
            let implied = matches!(self.solver.check(&m.pc, not(any), &m.model), Q::Unsat);
            if !implied {
                m.pc.push(any);
            }
        }
        m.conc.retain(|k, v| b.conc.get(k) == Some(v));
        Some(m)
    }
    fn merge_val(&self, st: &State, c: E, x: &Val, y: &Val, t: &Ty) -> Option<Val> {
        match (x, y, t) {
            (Val::A(p), Val::A(q), Ty::Agg(a)) => {
                let mut r = vec![];
                for i in 0..p.len() {
                    r.push(if p[i].same(&q[i]) { p[i].clone() } else { self.merge_val(st, c, &p[i], &q[i], &a.fields[i].1)? });
                }
                Some(Val::A(Rc::new(r)))
            }
            (Val::A(_), _, _) | (_, Val::A(_), _) => None,
            (_, _, Ty::Int(w)) => {
                if let (Val::C(p), Val::C(q)) = (x, y) {
                    if *w == 64 && self.looks_like_ptr(st, *p) && self.looks_like_ptr(st, *q) {
                        return None;
                    }
                }
                Some(Val::norm(ite(c, x.e(*w), y.e(*w))))
            }
            _ => None,
        }
    }
}

pub fn table_value(e: E, s: E, v: u64) -> u64 {
    // evaluate a tabular expression through its table
    crate::expr::tab_eval_pub(e, s, v)
}

impl Mem {
    pub fn alloc(&mut self, size: u64) -> (u64, u32) {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.objs.push(None);
                self.objs.len() as u32 - 1
            }
        };
        self.objs[id as usize] = Some(Rc::new(Obj::new(size)));
        ((self.base + id as u64) << 32, id)
    }
    pub fn release(&mut self, ids: &[u32]) {
        for id in ids.iter().rev() {
            self.objs[*id as usize] = None;
            self.free.push(*id);
        }
    }
    pub fn dealloc(&mut self, a: u64) -> bool {
        let id = (a >> 32).wrapping_sub(self.base) as usize;
        if a & 0xffff_ffff != 0 || id >= self.objs.len() || self.objs[id].is_none() {
            return false;
        }
        self.objs[id] = None;
        self.free.push(id as u32);
        true
    }
}

pub fn put_byte(o: &mut Obj, i: usize, e: E) {
    match cval(e) {
        Some(v) => {
            o.data[i] = v as u8;
            if let Some(s) = &mut o.sym {
                s[i] = 0;
            }
        }
        None => {
            let sz = o.size as usize;
            o.sym.get_or_insert_with(|| Box::new(vec![0; sz]))[i] = e;
            o.data[i] = 0;
        }
    }
}
#[inline]
pub fn sx(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        let s = 64 - w;
        (((v << s) as i64) >> s) as u64
    }
}

pub fn bin(op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let m = mask(w);
            return Ok(Val::C(
                match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sx(x, w) as i64 >> y.min(63)) as u64,
                    Bin::UDiv | Bin::URem if y == 0 => return err("division by zero"),
                    Bin::UDiv => x / y,
                    Bin::URem => x % y,
                    Bin::SDiv | Bin::SRem if y == 0 => return err("division by zero"),
                    Bin::SDiv => (sx(x, w) as i64).wrapping_div(sx(y, w) as i64) as u64,
                    Bin::SRem => (sx(x, w) as i64).wrapping_rem(sx(y, w) as i64) as u64,
                } & m,
            ));
        }
    }
    let (x, y) = (a.e(w), b.e(w));
    Ok(Val::norm(match op {
        Bin::Add => add(x, y),
        Bin::Sub => sub(x, y),
        Bin::Mul => mul(x, y),
        Bin::And => and(x, y),
        Bin::Or => or(x, y),
        Bin::Xor => xor(x, y),
        Bin::Shl => shl(x, y),
        Bin::LShr => lshr(x, y),
        Bin::AShr => ashr(x, y),
        Bin::UDiv => udiv(x, y),
        Bin::URem => urem(x, y),
        Bin::SDiv => sdiv(x, y),
        Bin::SRem => srem(x, y),
    }))
}
pub fn icmp(pred: u8, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        if w <= 64 {
            let (sa, sb) = (sx(*x, w) as i64, sx(*y, w) as i64);
            return Val::C(match pred {
                32 => x == y,
                33 => x != y,
                34 => x > y,
                35 => x >= y,
                36 => x < y,
                37 => x <= y,
                38 => sa > sb,
                39 => sa >= sb,
                40 => sa < sb,
                _ => sa <= sb,
            } as u64);
        }
    }
    let (x, y) = (a.e(w), b.e(w));
    Val::norm(match pred {
        32 => eq(x, y),
        33 => ne(x, y),
        34 => ult(y, x),
        35 => not(ult(x, y)),
        36 => ult(x, y),
        37 => not(ult(y, x)),
        38 => slt(y, x),
        39 => not(slt(x, y)),
        40 => slt(x, y),
        _ => not(slt(y, x)),
    })
}
fn select(c: &Val, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
    match c {
        Val::C(1) => Ok(a.clone()),
        Val::C(_) => Ok(b.clone()),
        Val::E(e) => {
            if a.same(b) {
                return Ok(a.clone());
            }
            match ty {
                Ty::Int(w) => Ok(Val::norm(ite(*e, a.e(*w), b.e(*w)))),
                Ty::Agg(t) => {
                    let (Val::A(x), Val::A(y)) = (a, b) else { return err("select agg") };
                    let mut r = vec![];
                    for i in 0..x.len() {
                        r.push(select(c, &x[i], &y[i], &t.fields[i].1)?);
                    }
                    Ok(Val::A(Rc::new(r)))
                }
                _ => err("select type"),
            }
        }
        _ => err("select cond"),
    }
}
pub fn lanes2(t: &AggTy, a: &Val, b: &Val, f: impl Fn(u32, &Val, &Val) -> R<Val>) -> R<Val> {
    let (Val::A(x), Val::A(y)) = (a, b) else { return err("vector operand") };
    let w = t.fields[0].1.w();
    let mut r = Vec::with_capacity(x.len());
    for i in 0..x.len() {
        r.push(f(w, &x[i], &y[i])?);
    }
    Ok(Val::A(Rc::new(r)))
}
pub fn lanes_to_int(v: &Val, ew: u32) -> Val {
    let Val::A(x) = v else { return v.clone() };
    let mut e = x[0].e(ew);
    for l in &x[1..] {
        e = concat(l.e(ew), e);
    }
    Val::norm(e)
}
pub fn int_to_lanes(v: &Val, n: u32, ew: u32) -> Val {
    let e = v.e(n * ew);
    Val::A(Rc::new((0..n).map(|i| Val::norm(extract(e, i * ew, ew))).collect()))
}
fn cast(k: Cast, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
    match (from, to) {
        (Ty::Int(f), Ty::Int(t)) => {
            if let Val::C(x) = a {
                if *t <= 64 {
                    return Ok(Val::C(match k {
                        Cast::SExt => sx(*x, *f) & mask(*t),
                        _ => *x & mask(*t),
                    }));
                }
            }
            let e = a.e(*f);
            Ok(Val::norm(match k {
                Cast::SExt => sext(e, *t),
                _ => resize(e, *t),
            }))
        }
        (Ty::Agg(f), Ty::Agg(t)) => {
            let fw = f.fields[0].1.w();
            let tw = t.fields[0].1.w();
            if k == Cast::Bitcast && f.fields.len() != t.fields.len() {
                let i = lanes_to_int(a, fw);
                return Ok(int_to_lanes(&i, t.fields.len() as u32, tw));
            }
            let Val::A(x) = a else { return err("vcast") };
            let mut r = vec![];
            for v in x.iter() {
                r.push(cast(k, &Ty::Int(fw), &Ty::Int(tw), v)?);
            }
            Ok(Val::A(Rc::new(r)))
        }
        (Ty::Agg(f), Ty::Int(_)) => Ok(lanes_to_int(a, f.fields[0].1.w())),
        (Ty::Int(_), Ty::Agg(t)) => Ok(int_to_lanes(a, t.fields.len() as u32, t.fields[0].1.w())),
        _ => err("cast types"),
    }
}
fn insert(v: Val, e: &Val, ix: &[u32]) -> R<Val> {
    let Val::A(a) = &v else { return err("insertvalue") };
    let mut x = (**a).clone();
    let i = ix[0] as usize;
    if ix.len() == 1 {
        x[i] = e.clone();
    } else {
        x[i] = insert(x[i].clone(), e, &ix[1..])?;
    }
    Ok(Val::A(Rc::new(x)))
}
