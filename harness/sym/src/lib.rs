//! Harness API.  Under the symbolic engine every `__sym_*` function is an
//! intrinsic; natively the bodies below replay a recorded counterexample.
use std::collections::HashMap;
use std::sync::Mutex;

struct Replay {
    inputs: HashMap<String, Vec<u8>>,
    choices: HashMap<String, u64>,
    seen: HashMap<String, u32>,
    reach: Vec<String>,
}
static REPLAY: Mutex<Option<Replay>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Replay) -> T) -> T {
    let mut g = REPLAY.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let mut r = Replay { inputs: HashMap::new(), choices: HashMap::new(), seen: HashMap::new(), reach: vec![] };
        if let Ok(p) = std::env::var("SYM_REPLAY") {
            for l in std::fs::read_to_string(p).expect("replay file").lines() {
                // names may contain spaces, values never do
                let Some((n, v)) = l.get(2..).and_then(|x| x.rsplit_once(' ')) else { continue };
                match l.as_bytes()[0] {
                    b'I' => {
                        let b = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect();
                        r.inputs.insert(n.to_string(), b);
                    }
                    b'C' => {
                        r.choices.insert(n.to_string(), v.parse().unwrap());
                    }
                    _ => {}
                }
            }
        }
        *g = Some(r);
    }
    f(g.as_mut().unwrap())
}
fn unique(r: &mut Replay, n: &str) -> String {
    let k = r.seen.entry(n.to_string()).or_insert(0);
    let s = format!("{n}#{k}");
    *k += 1;
    s
}
unsafe fn st<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_bytes(name: *const u8, nl: usize, out: *mut u8, n: usize) {
    let nm = st(name, nl);
    let o = std::slice::from_raw_parts_mut(out, n);
    with(|r| {
        let k = unique(r, nm);
        let v = r.inputs.get(&k).cloned().unwrap_or_default();
        for i in 0..n {
            o[i] = v.get(i).copied().unwrap_or(0);
        }
    })
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_chars(name: *const u8, nl: usize, out: *mut u8, n: usize, alpha: *const u8, al: usize) {
    let nm = st(name, nl);
    let o = std::slice::from_raw_parts_mut(out, n);
    let a = std::slice::from_raw_parts(alpha, al);
    with(|r| {
        let k = unique(r, nm);
        let v = r.inputs.get(&k).cloned().unwrap_or_default();
        for i in 0..n {
            o[i] = v.get(i).copied().unwrap_or(a[0]);
        }
    })
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_choice(name: *const u8, nl: usize, n: u64) -> u64 {
    let nm = st(name, nl);
    with(|r| {
        let k = unique(r, nm);
        let v = r.choices.get(&k).copied().unwrap_or(0);
        assert!(v < n);
        v
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assume(c: bool) {
    if !c {
        eprintln!("SYM-ASSUME not satisfied");
        std::process::exit(79)
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_assert(c: bool, label: *const u8, n: usize) {
    if !c {
        println!("SYM-ASSERT {}", st(label, n));
        std::process::exit(77)
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_reach(label: *const u8, n: usize) {
    let l = st(label, n).to_string();
    with(|r| r.reach.push(l))
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn __sym_catch(f: unsafe extern "C-unwind" fn(*mut u8), data: *mut u8) -> i32 {
    let d = data as usize;
    match std::panic::catch_unwind(move || f(d as *mut u8)) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_is_symbolic() -> bool {
    false
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_print(p: *const u8, n: usize) {
    eprintln!("[sym] {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
}
/// Symbolic integers: writes fixed-width decimal digits and returns their
/// number.  0 = value is concrete, format it normally.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_dec(_v: *const u8, _size: usize, _out: *mut u8, _cap: usize) -> usize {
    0
}

/// Symbolic 256-bit integers: recombines decimal text; false = use real code.
/// # Safety
/// called by the patched big-integer crate only
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sym_u256_parse(_s: *const u8, _n: usize, _out: *mut u8) -> bool {
    false
}

// ---------------------------------------------------------------- safe layer

pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { __sym_bytes(name.as_ptr(), name.len(), b.as_mut_ptr(), N) };
    b
}
pub fn vec(name: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { __sym_bytes(name.as_ptr(), name.len(), b.as_mut_ptr(), n) };
    b
}
pub fn u8_(name: &str) -> u8 {
    bytes::<1>(name)[0]
}
pub fn u32_(name: &str) -> u32 {
    u32::from_le_bytes(bytes(name))
}
pub fn u64_(name: &str) -> u64 {
    u64::from_le_bytes(bytes(name))
}
pub fn u128_(name: &str) -> u128 {
    u128::from_le_bytes(bytes(name))
}
/// a symbolic boolean
pub fn bool_(name: &str) -> bool {
    u8_(name) & 1 == 1
}
/// a symbolic string over the letters and six digits
pub fn name(name: &str, n: usize) -> String {
    chars(name, n, "abcdefghijklmnopqrstuvwxyz012345")
}
/// symbolic text over letters of both cases, digits, '/' and ' '
pub fn text(name: &str, n: usize) -> String {
    chars(name, n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/ ")
}
/// symbolic lower-case hex text
pub fn hex(name: &str, n: usize) -> String {
    chars(name, n, "0123456789abcdef")
}
pub fn chars(name: &str, n: usize, alpha: &str) -> String {
    let mut b = vec![0u8; n];
    unsafe {
        __sym_chars(name.as_ptr(), name.len(), b.as_mut_ptr(), n, alpha.as_ptr(), alpha.len());
        String::from_utf8_unchecked(b)
    }
}
/// explore every value 0..n separately
pub fn choice(name: &str, n: usize) -> usize {
    unsafe { __sym_choice(name.as_ptr(), name.len(), n as u64) as usize }
}
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
pub fn assume(c: bool) {
    __sym_assume(c)
}
pub fn check(c: bool, label: &str) {
    unsafe { __sym_assert(c, label.as_ptr(), label.len()) }
}
pub fn fail(label: &str) {
    check(false, label)
}
pub fn reach(label: &str) {
    unsafe { __sym_reach(label.as_ptr(), label.len()) }
}
pub fn symbolic() -> bool {
    __sym_is_symbolic()
}
pub fn print(s: &str) {
    unsafe { __sym_print(s.as_ptr(), s.len()) }
}
/// branch-free conjunction / disjunction helpers (avoid forking in oracles)
pub fn all(v: &[bool]) -> bool {
    let mut r = 1u8;
    for b in v {
        r &= *b as u8;
    }
    r == 1
}
pub fn any(v: &[bool]) -> bool {
    let mut r = 0u8;
    for b in v {
        r |= *b as u8;
    }
    r == 1
}
pub fn implies(a: bool, b: bool) -> bool {
    (!a) | b
}
/// byte-string equality without forking on symbolic contents
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}

struct Slot<T, F: FnOnce() -> T> {
    f: Option<F>,
    r: Option<T>,
}
unsafe extern "C-unwind" fn tramp<T, F: FnOnce() -> T>(p: *mut u8) {
    let s = &mut *(p as *mut Slot<T, F>);
    let f = s.f.take().unwrap();
    s.r = Some(f());
}
/// run `f`; None if it panicked (as a CosmWasm VM abort would)
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    let mut s = Slot { f: Some(f), r: None };
    let r = unsafe { __sym_catch(tramp::<T, F>, &mut s as *mut _ as *mut u8) };
    if r == 0 {
        s.r.take()
    } else {
        std::mem::forget(s);
        None
    }
}

/// native entry point
pub fn native_main(table: &[(&str, unsafe extern "C-unwind" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    let n = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if n.is_empty() {
        for (k, _) in table {
            println!("{k}");
        }
        return;
    }
    let Some((_, f)) = table.iter().find(|x| x.0 == n) else {
        eprintln!("no harness {n}");
        std::process::exit(2)
    };
    let f = *f;
    match std::panic::catch_unwind(move || unsafe { f() }) {
        Ok(()) => {
            with(|r| {
                for l in &r.reach {
                    println!("SYM-REACH {l}");
                }
            });
            println!("SYM-OK")
        }
        Err(_) => {
            println!("SYM-ASSERT uncaught panic");
            std::process::exit(78)
        }
    }
}

/// `harnesses! { h_a, h_b }`: the named functions are `#[no_mangle] extern
/// "C-unwind" fn h_*`; generates the native dispatcher.
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        fn main() {
            sym::native_main(&[$((&stringify!($n)[2..], $n as unsafe extern "C-unwind" fn())),*]);
        }
    };
}
