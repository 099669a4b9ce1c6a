//! Random differential test of the simplifying constructors against the
//! evaluator, and of the evaluator / translation against Z3.
use crate::bits::*;
use crate::expr::*;
use crate::z3::*;

struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.n() >> 11) % n
    }
}
/// decimal text of a symbolic integer parses back to the same expression
fn decimal() {
    for w in [8u32, 16, 32, 64, 128, 256] {
        let v = var(&format!("dec{w}"), w);
        let d = crate::hooks::dec_bytes(v);
        for pw in [w, 64.max(w), 128.max(w)] {
            if w == 8 && pw > 64 {
                continue;
            }
            let mut n = zext(sub(d[0], cst(8, 48)), pw);
            let mut ovf = fls();
            for c in &d[1..] {
                let ten = cst(pw, 10);
                ovf = or(ovf, umulo(n, ten));
                n = mul(n, ten);
                let x = zext(sub(*c, cst(8, 48)), pw);
                ovf = or(ovf, uaddo(n, x));
                let m = add(n, x);
                ovf = or(ovf, ult(m, n));
                n = m;
            }
            if n != zext(v, pw) || ovf != fls() {
                println!("decimal w={w} pw={pw}: {} ovf {}", show(n, 6), show(ovf, 9));
                std::process::exit(1);
            }
        }
    }
}

pub fn run(rounds: u64) {
    decimal();
    let mut r = Rng(0x9e3779b97f4a7c15);
    let mut z = Z3::new();
    let widths = [1u32, 4, 8, 8, 16, 32, 64, 64, 128];
    let mut checked = 0u64;
    let mut zq = 0u64;
    for round in 0..rounds {
        let vars: Vec<E> = vec![
            var(&format!("a{}", round % 7), 8),
            var("n", 4),
            var("b", 32),
            var("c", 64),
            var("d", 128),
            var("p", 1),
            var("w", 16),
        ];
        let mut pool: Vec<E> = vars.clone();
        // assignments
        let mut asgs: Vec<Assign> = vec![];
        for _ in 0..6 {
            let mut a: Assign = Default::default();
            for v in &vars {
                let w = width(*v);
                let small = r.below(3) == 0;
                let l: Vec<u64> = (0..(w as usize + 63) / 64).map(|i| if small { if i == 0 { r.n() & 0xff } else { 0 } } else { r.n() }).collect();
                let l: Vec<u64> = l.iter().enumerate().map(|(i, x)| if (i as u32 + 1) * 64 <= w { *x } else { x & mask(w - i as u32 * 64) }).collect();
                a.insert(node(*v).a, Bits::norm(w, l));
            }
            asgs.push(a);
        }
        let nops = 30;
        for _ in 0..nops {
            let pick = |r: &mut Rng, pool: &Vec<E>| pool[r.below(pool.len() as u64) as usize];
            let x = pick(&mut r, &pool);
            let w = width(x);
            let k = r.below(29);
            let y0 = pick(&mut r, &pool);
            let y = if r.below(3) == 0 {
                let c = match r.below(4) {
                    0 => r.n(),
                    1 => r.below(20),
                    2 => 10,
                    _ => 1 << r.below(8),
                };
                cst(w, c)
            } else {
                resize(y0, w)
            };
            // expected semantics computed on the raw node
            let (n, ch, e): (Node, Vec<E>, E) = match k {
                0 => (Node { op: Op::Add, w, a: 0, b: 0, c: 0 }, vec![x, y], add(x, y)),
                1 => (Node { op: Op::Sub, w, a: 0, b: 0, c: 0 }, vec![x, y], sub(x, y)),
                2 => (Node { op: Op::Mul, w, a: 0, b: 0, c: 0 }, vec![x, y], mul(x, y)),
                3 | 4 => {
                    let y = or(y, cst(w, 1));
                    if k == 3 {
                        (Node { op: Op::UDiv, w, a: 0, b: 0, c: 0 }, vec![x, y], udiv(x, y))
                    } else {
                        (Node { op: Op::URem, w, a: 0, b: 0, c: 0 }, vec![x, y], urem(x, y))
                    }
                }
                5 => (Node { op: Op::And, w, a: 0, b: 0, c: 0 }, vec![x, y], and(x, y)),
                6 => (Node { op: Op::Or, w, a: 0, b: 0, c: 0 }, vec![x, y], or(x, y)),
                7 => (Node { op: Op::Xor, w, a: 0, b: 0, c: 0 }, vec![x, y], xor(x, y)),
                8 | 9 | 10 => {
                    let s = if r.below(2) == 0 { cst(w, r.below(w as u64)) } else { and(y, cst(w, (w as u64 / 2).next_power_of_two().saturating_sub(1))) };
                    match k {
                        8 => (Node { op: Op::Shl, w, a: 0, b: 0, c: 0 }, vec![x, s], shl(x, s)),
                        9 => (Node { op: Op::LShr, w, a: 0, b: 0, c: 0 }, vec![x, s], lshr(x, s)),
                        _ => (Node { op: Op::AShr, w, a: 0, b: 0, c: 0 }, vec![x, s], ashr(x, s)),
                    }
                }
                11 => (Node { op: Op::Eq, w: 1, a: 0, b: 0, c: 0 }, vec![x, y], eq(x, y)),
                12 => (Node { op: Op::Ult, w: 1, a: 0, b: 0, c: 0 }, vec![x, y], ult(x, y)),
                13 => (Node { op: Op::Slt, w: 1, a: 0, b: 0, c: 0 }, vec![x, y], slt(x, y)),
                14 | 15 => {
                    let c = extract(pick(&mut r, &pool), 0, 1);
                    (Node { op: Op::Ite, w, a: 0, b: 0, c: 0 }, vec![c, x, y], ite(c, x, y))
                }
                16 | 17 => {
                    let lo = r.below(w as u64) as u32;
                    let len = 1 + r.below((w - lo) as u64) as u32;
                    (Node { op: Op::Extract, w: len, a: 0, b: lo, c: 0 }, vec![x], extract(x, lo, len))
                }
                18 | 19 => {
                    if w + width(y0) > 300 {
                        continue;
                    }
                    (Node { op: Op::Concat, w: w + width(y0), a: 0, b: 0, c: 0 }, vec![x, y0], concat(x, y0))
                }
                20 => {
                    let t = w + 1 + r.below(40) as u32;
                    if t > 300 {
                        continue;
                    }
                    (Node { op: Op::SExt, w: t, a: 0, b: 0, c: 0 }, vec![x], sext(x, t))
                }
                21 | 22 => {
                    if w < 8 || w > 128 {
                        continue;
                    }
                    let i = r.below(8) as u32;
                    (Node { op: Op::Digit, w: 8, a: 0, b: i, c: 0 }, vec![x], digit(x, i))
                }
                23 => {
                    if w > 8 {
                        continue;
                    }
                    let t: Vec<u64> = (0..1 << w).map(|_| r.n() & 0xff).collect();
                    let e = mk_table_any(&t, x);
                    for a in &asgs {
                        let mut ev = Evaluator::new(a);
                        assert_eq!(ev.eval(e).u64(), t[ev.eval(x).u64() as usize], "table");
                    }
                    pool.push(e);
                    continue;
                }
                26 => {
                    // scaled values: products, quotients and comparisons with constants
                    if w < 16 || w > 128 {
                        continue;
                    }
                    let w2 = w + 70;
                    let c = |r: &mut Rng| cst(w2, [1_000_000_000, 10, 6, 1 + r.n() % 1000, 1 + (r.n() >> 34)][r.below(5) as usize]);
                    let m = mul(zext(x, w2), c(&mut r));
                    let m = if r.below(2) == 0 { mul(m, c(&mut r)) } else { m };
                    let d = c(&mut r);
                    match r.below(4) {
                        0 => (Node { op: Op::UDiv, w: w2, a: 0, b: 0, c: 0 }, vec![m, d], udiv(m, d)),
                        1 => (Node { op: Op::Mul, w: w2, a: 0, b: 0, c: 0 }, vec![m, d], mul(m, d)),
                        2 => {
                            let k = cst(w2, r.n() >> r.below(64));
                            let k = if r.below(2) == 0 { mul(k, d) } else { k };
                            (Node { op: Op::Ult, w: 1, a: 0, b: 0, c: 0 }, vec![m, k], ult(m, k))
                        }
                        _ => {
                            let k = cst(w2, r.n() >> r.below(64));
                            let k = if r.below(2) == 0 { mul(k, d) } else { k };
                            (Node { op: Op::Ult, w: 1, a: 0, b: 0, c: 0 }, vec![k, m], ult(k, m))
                        }
                    }
                }
                27 => {
                    // slices of differences of zero-extended values
                    if w < 8 || w > 128 || width(y0) > 200 {
                        continue;
                    }
                    let w2 = 256;
                    let d = sub(zext(x, w2), zext(y0, w2));
                    let lo = [0, w, 64, 128][r.below(4) as usize];
                    let k = [64, 128, w2 - lo][r.below(3) as usize].min(w2 - lo);
                    (Node { op: Op::Extract, w: k, a: 0, b: lo, c: 0 }, vec![d], extract(d, lo, k))
                }
                25 => {
                    // comparisons of (truncated) quotients with a constant divisor
                    if w < 16 || w > 128 {
                        continue;
                    }
                    let w2 = w + 40;
                    let d = cst(w2, 1 + r.n() % (1 << (1 + r.below(40))));
                    let q = if r.below(2) == 0 { udiv(zext(x, w2), d) } else { udiv(mul(zext(x, w2), cst(w2, r.n() >> 28)), d) };
                    let k = [w2, w2, w, w - 8][r.below(4) as usize];
                    let q = extract(q, 0, k);
                    let y = match r.below(3) {
                        0 => cst(k, r.n() >> r.below(60).max(64u64.saturating_sub(k as u64))),
                        1 => zext(extract(y0, 0, width(y0).min(k)), k),
                        _ => cst(k, 0),
                    };
                    let (a, b) = if r.below(2) == 0 { (q, y) } else { (y, q) };
                    if r.below(2) == 0 {
                        (Node { op: Op::Ult, w: 1, a: 0, b: 0, c: 0 }, vec![a, b], ult(a, b))
                    } else {
                        (Node { op: Op::Eq, w: 1, a: 0, b: 0, c: 0 }, vec![a, b], eq(a, b))
                    }
                }
                24 => {
                    // division by powers of ten
                    if w < 8 || w > 128 {
                        continue;
                    }
                    let p = cst(w, 10u64.pow(1 + r.below(2) as u32));
                    if r.below(2) == 0 {
                        (Node { op: Op::UDiv, w, a: 0, b: 0, c: 0 }, vec![x, p], udiv(x, p))
                    } else {
                        (Node { op: Op::URem, w, a: 0, b: 0, c: 0 }, vec![x, p], urem(x, p))
                    }
                }
                _ => {
                    // q*10 + digit reconstruction
                    if w < 32 || w > 128 {
                        continue;
                    }
                    let i = r.below(4) as u32;
                    let q = udiv(x, cst(w, 10u64.pow(i + 1)));
                    let e = add(mul(q, cst(w, 10)), zext(digit(x, i), w));
                    let f = udiv(x, cst(w, 10u64.pow(i)));
                    for a in &asgs {
                        let mut ev = Evaluator::new(a);
                        assert_eq!(ev.eval(e), ev.eval(f), "digits");
                    }
                    let ov = [umulo(q, cst(w, 10)), uaddo(mul(q, cst(w, 10)), zext(digit(x, i), w))];
                    for o in ov {
                        for a in &asgs {
                            assert_eq!(Evaluator::new(a).eval(o).u64(), 0, "digit overflow");
                        }
                    }
                    continue;
                }
            };
            for (ai, a) in asgs.iter().enumerate() {
                let mut ev = Evaluator::new(a);
                let vals: Vec<(Bits, u32)> = ch.iter().map(|c| (ev.eval(*c), width(*c))).collect();
                let want = apply(n, n.w, &vals);
                let got = ev.eval(e);
                if got != want || width(e) != n.w {
                    println!("MISMATCH op {:?} w {} asg {ai}", n.op, n.w);
                    for c in &ch {
                        println!("  arg {} = {}", show(*c, 6), ev.eval(*c).hex(width(*c)));
                    }
                    println!("  got expr {} = {} want {}", show(e, 8), got.hex(width(e)), want.hex(n.w));
                    std::process::exit(1);
                }
                checked += 1;
                // overflow predicates
            }
            if matches!(n.op, Op::Add | Op::Mul) && n.w <= 64 {
                let o = if n.op == Op::Add { uaddo(ch[0], ch[1]) } else { umulo(ch[0], ch[1]) };
                for a in &asgs {
                    let mut ev = Evaluator::new(a);
                    let (p, q) = (ev.eval(ch[0]).u128(), ev.eval(ch[1]).u128());
                    let full = if n.op == Op::Add { p + q } else { p * q };
                    assert_eq!(ev.eval(o).u64() == 1, full >> w != 0, "overflow {:?} {}", n.op, show(o, 5));
                }
            }
            if width(e) <= 300 {
                pool.push(e);
            }
        }
        let _ = widths;
        // cross-check against z3: e == value under the assignment must be sat,
        // and e != value unsat
        if round % 4 == 0 {
            let e = *pool.last().unwrap();
            let a = &asgs[0];
            let val = Evaluator::new(a).eval(e);
            let mut cs = vec![];
            let mut vs: Vec<u32> = support(e).to_vec();
            for v in &vs {
                let ve = vars.iter().copied().find(|x| node(*x).a == *v).unwrap();
                cs.push(eq(ve, cbits(width(ve), &a[v])));
            }
            cs.push(ne(e, cbits(width(e), &val)));
            cs.retain(|c| *c != tru());
            vs.sort();
            if cs.iter().any(|c| *c == fls()) || cs.is_empty() {
                continue;
            }
            zq += 1;
            match z.check(&cs, &vs, 20000) {
                Res::Unsat => {}
                Res::Sat(_) => {
                    println!("Z3 MISMATCH {} want {}", show(e, 10), val.hex(width(e)));
                    std::process::exit(1);
                }
                Res::Unknown => println!("z3 unknown on {}", show(e, 4)),
            }
        }
    }
    println!("selftest ok: {checked} constructor checks, {zq} z3 cross-checks, {} nodes", cx().nodes.len());
}
fn mk_table_any(t: &[u64], x: E) -> E {
    table_apply(t, 8, x)
}
