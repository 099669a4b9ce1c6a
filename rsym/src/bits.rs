//! Fixed-width bit-vector constants of any width.
//! Width <= 64 is stored inline; wider values as little-endian limbs.

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bits {
    S(u64),
    L(Box<[u64]>),
}
use Bits::*;

#[inline]
pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn nl(w: u32) -> usize {
    ((w + 63) / 64) as usize
}

impl Bits {
    pub fn from_u64(w: u32, v: u64) -> Bits {
        if w <= 64 {
            S(v & mask(w))
        } else {
            let mut l = vec![0u64; nl(w)];
            l[0] = v;
            L(l.into())
        }
    }
    pub fn from_u128(w: u32, v: u128) -> Bits {
        if w <= 64 {
            S(v as u64 & mask(w))
        } else {
            let mut l = vec![0u64; nl(w)];
            l[0] = v as u64;
            l[1] = (v >> 64) as u64;
            Bits::norm(w, l)
        }
    }
    pub fn norm(w: u32, mut l: Vec<u64>) -> Bits {
        if w <= 64 {
            return S(l.first().copied().unwrap_or(0) & mask(w));
        }
        l.resize(nl(w), 0);
        let r = w % 64;
        if r != 0 {
            let n = l.len();
            l[n - 1] &= mask(r);
        }
        L(l.into())
    }
    pub fn zero(w: u32) -> Bits {
        Bits::from_u64(w, 0)
    }
    pub fn ones(w: u32) -> Bits {
        Bits::norm(w, vec![!0; nl(w)])
    }
    pub fn from_le_bytes(w: u32, b: &[u8]) -> Bits {
        let mut l = vec![0u64; nl(w).max(1)];
        for (i, x) in b.iter().enumerate() {
            if i / 8 < l.len() {
                l[i / 8] |= (*x as u64) << (8 * (i % 8));
            }
        }
        Bits::norm(w, l)
    }
    pub fn limb(&self, i: usize) -> u64 {
        match self {
            S(v) => {
                if i == 0 {
                    *v
                } else {
                    0
                }
            }
            L(l) => l.get(i).copied().unwrap_or(0),
        }
    }
    pub fn limbs(&self) -> Vec<u64> {
        match self {
            S(v) => vec![*v],
            L(l) => l.to_vec(),
        }
    }
    pub fn to_le_bytes(&self, w: u32) -> Vec<u8> {
        let n = ((w + 7) / 8) as usize;
        (0..n).map(|i| (self.limb(i / 8) >> (8 * (i % 8))) as u8).collect()
    }
    pub fn u64(&self) -> u64 {
        self.limb(0)
    }
    pub fn u128(&self) -> u128 {
        self.limb(0) as u128 | (self.limb(1) as u128) << 64
    }
    pub fn fits128(&self) -> bool {
        match self {
            S(_) => true,
            L(l) => l[2.min(l.len())..].iter().all(|x| *x == 0),
        }
    }
    pub fn is_zero(&self) -> bool {
        match self {
            S(v) => *v == 0,
            L(l) => l.iter().all(|x| *x == 0),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        self.limb((i / 64) as usize) >> (i % 64) & 1 == 1
    }
    /// number of significant bits
    pub fn blen(&self) -> u32 {
        let l = self.limbs();
        for i in (0..l.len()).rev() {
            if l[i] != 0 {
                return i as u32 * 64 + 64 - l[i].leading_zeros();
            }
        }
        0
    }
    pub fn extract(&self, lo: u32, w: u32) -> Bits {
        if w <= 64 {
            let i = (lo / 64) as usize;
            let s = lo % 64;
            let mut v = self.limb(i) >> s;
            if s != 0 {
                v |= self.limb(i + 1) << (64 - s);
            }
            return S(v & mask(w));
        }
        let i0 = (lo / 64) as usize;
        let s = lo % 64;
        let mut l = vec![0u64; nl(w)];
        for k in 0..l.len() {
            let mut v = self.limb(i0 + k) >> s;
            if s != 0 {
                v |= self.limb(i0 + k + 1) << (64 - s);
            }
            l[k] = v;
        }
        Bits::norm(w, l)
    }
    /// (hi:wh) ++ (lo:wl)
    pub fn concat(hi: &Bits, wh: u32, lo: &Bits, wl: u32) -> Bits {
        let w = wh + wl;
        if w <= 64 {
            return S(hi.u64() << wl | lo.u64());
        }
        let mut l = vec![0u64; nl(w) + 1];
        for k in 0..nl(wl) {
            l[k] = lo.limb(k);
        }
        let i0 = (wl / 64) as usize;
        let s = wl % 64;
        for k in 0..nl(wh) {
            let v = hi.limb(k);
            l[i0 + k] |= v << s;
            if s != 0 {
                l[i0 + k + 1] |= v >> (64 - s);
            }
        }
        Bits::norm(w, l)
    }
    pub fn sext(&self, w: u32, to: u32) -> Bits {
        if w == to {
            return self.clone();
        }
        if w == 0 || !self.bit(w - 1) {
            let mut l = self.limbs();
            l.resize(nl(to), 0);
            Bits::norm(to, l)
        } else {
            Bits::concat(&Bits::ones(to - w), to - w, self, w)
        }
    }
    pub fn not(&self, w: u32) -> Bits {
        Bits::norm(w, (0..nl(w)).map(|i| !self.limb(i)).collect())
    }
    pub fn map2(&self, o: &Bits, w: u32, f: impl Fn(u64, u64) -> u64) -> Bits {
        if w <= 64 {
            return S(f(self.u64(), o.u64()) & mask(w));
        }
        Bits::norm(w, (0..nl(w)).map(|i| f(self.limb(i), o.limb(i))).collect())
    }
    pub fn add(&self, o: &Bits, w: u32) -> Bits {
        if w <= 64 {
            return S(self.u64().wrapping_add(o.u64()) & mask(w));
        }
        let mut c = 0u64;
        let l = (0..nl(w))
            .map(|i| {
                let (x, a) = self.limb(i).overflowing_add(o.limb(i));
                let (y, b) = x.overflowing_add(c);
                c = (a | b) as u64;
                y
            })
            .collect();
        Bits::norm(w, l)
    }
    pub fn neg(&self, w: u32) -> Bits {
        self.not(w).add(&Bits::from_u64(w, 1), w)
    }
    pub fn sub(&self, o: &Bits, w: u32) -> Bits {
        if w <= 64 {
            return S(self.u64().wrapping_sub(o.u64()) & mask(w));
        }
        self.add(&o.neg(w), w)
    }
    pub fn mul(&self, o: &Bits, w: u32) -> Bits {
        if w <= 64 {
            return S(self.u64().wrapping_mul(o.u64()) & mask(w));
        }
        let n = nl(w);
        let mut l = vec![0u64; n];
        for i in 0..n {
            let mut c: u128 = 0;
            let a = self.limb(i) as u128;
            if a == 0 {
                continue;
            }
            for j in 0..n - i {
                let t = a * o.limb(j) as u128 + l[i + j] as u128 + c;
                l[i + j] = t as u64;
                c = t >> 64;
            }
        }
        Bits::norm(w, l)
    }
    pub fn ult(&self, o: &Bits) -> bool {
        match (self, o) {
            (S(a), S(b)) => a < b,
            _ => {
                let n = self.limbs().len().max(o.limbs().len());
                for i in (0..n).rev() {
                    if self.limb(i) != o.limb(i) {
                        return self.limb(i) < o.limb(i);
                    }
                }
                false
            }
        }
    }
    pub fn slt(&self, o: &Bits, w: u32) -> bool {
        let (a, b) = (self.bit(w - 1), o.bit(w - 1));
        if a != b {
            a
        } else {
            self.ult(o)
        }
    }
    /// SMT-LIB semantics: x/0 = ones, x%0 = x
    pub fn udivrem(&self, o: &Bits, w: u32) -> (Bits, Bits) {
        if o.is_zero() {
            return (Bits::ones(w), self.clone());
        }
        if w <= 64 {
            return (S(self.u64() / o.u64()), S(self.u64() % o.u64()));
        }
        if self.fits128() && o.fits128() {
            return (Bits::from_u128(w, self.u128() / o.u128()), Bits::from_u128(w, self.u128() % o.u128()));
        }
        let mut q = vec![0u64; nl(w)];
        let mut r = Bits::zero(w + 64);
        let ow = Bits::norm(w + 64, o.limbs());
        for i in (0..self.blen()).rev() {
            r = r.add(&r, w + 64);
            if self.bit(i) {
                r = r.add(&Bits::from_u64(w + 64, 1), w + 64);
            }
            if !r.ult(&ow) {
                r = r.sub(&ow, w + 64);
                q[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        (Bits::norm(w, q), r.extract(0, w))
    }
    pub fn shl(&self, k: u32, w: u32) -> Bits {
        if k >= w {
            Bits::zero(w)
        } else if k == 0 {
            self.clone()
        } else {
            Bits::concat(&self.extract(0, w - k), w - k, &Bits::zero(k), k)
        }
    }
    pub fn lshr(&self, k: u32, w: u32) -> Bits {
        if k >= w {
            Bits::zero(w)
        } else {
            let e = self.extract(k, w - k);
            let mut l = e.limbs();
            l.resize(nl(w), 0);
            Bits::norm(w, l)
        }
    }
    pub fn ashr(&self, k: u32, w: u32) -> Bits {
        let k = k.min(w - 1);
        self.extract(k, w - k).sext(w - k, w)
    }
    pub fn hex(&self, w: u32) -> String {
        let b = self.to_le_bytes(w);
        b.iter().rev().map(|x| format!("{:02x}", x)).collect()
    }
    pub fn dec(&self, w: u32) -> String {
        let mut v = self.clone();
        if v.is_zero() {
            return "0".into();
        }
        let ten = Bits::from_u64(w.max(8), 10);
        let mut s = vec![];
        while !v.is_zero() {
            let (q, r) = v.udivrem(&ten, w.max(8));
            s.push(b'0' + r.u64() as u8);
            v = q;
        }
        s.reverse();
        String::from_utf8(s).unwrap()
    }
}
