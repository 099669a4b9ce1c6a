//! Security modules: multisig, aggregate, routing, pausable.
use cosmwasm_std::*;
use hpl_interface::ism::{aggregate as ag, multisig as ms, pausable as pz, routing as ro, *};
use hpl_interface::ownable::OwnableMsg;
use hpl_interface::pausable::*;
use std::cell::RefCell;
use vh::*;

sym::harnesses! {
    h_i01_verify, h_i01_enrolled, h_i01_parse, h_i01_large, h_i01d_verify,
    h_i02_config, h_i02_domains, h_i02_many, h_i02d_config,
    h_i03_verify, h_i03_segments, h_i03_repeated, h_i03_many, h_i03d_verify,
    h_i04_config, h_i04_init, h_i04_many, h_i04d_config,
    h_i05_route, h_i05_table, h_i05d_table,
    h_i06_pause, h_i06d_pause,
}

// ----------------------------------------------------------------- multisig

fn ms_setup() -> Store {
    let mut s = Store::new();
    let ok = tx(&mut s, &Q::none(), |d| {
        hpl_ism_multisig::contract::instantiate(d, env(), info("deployer", vec![]), ms::InstantiateMsg { owner: "owner".into() })
    });
    sym::check(ok.is_some(), "instantiation succeeds");
    s
}
fn ms_exec(s: &mut Store, who: &str, m: ms::ExecuteMsg) -> bool {
    tx(s, &Q::none(), |d| hpl_ism_multisig::contract::execute(d, env(), info(who, vec![]), m)).is_some()
}
fn ms_set(s: &mut Store, who: &str, domain: u32, threshold: u8, v: &[Vec<u8>]) -> bool {
    let validators = v.iter().map(|x| HexBinary::from(x.clone())).collect();
    ms_exec(s, who, ms::ExecuteMsg::SetValidators { domain, threshold, validators })
}
fn ms_verify(s: &Store, meta: &[u8], m: &[u8]) -> Option<bool> {
    let x = IsmQueryMsg::Verify { metadata: meta.to_vec().into(), message: m.to_vec().into() };
    let r: Option<VerifyResponse> = qry(s, &Q::none(), |d| hpl_ism_multisig::contract::query(d, env(), ms::QueryMsg::Ism(x)));
    r.map(|x| x.verified)
}
fn ms_enrolled(s: &Store, domain: u32) -> Option<(Vec<Vec<u8>>, u8)> {
    let x = ms::MultisigIsmQueryMsg::EnrolledValidators { domain };
    let r: Option<ms::EnrolledValidatorsResponse> = qry(s, &Q::none(), |d| hpl_ism_multisig::contract::query(d, env(), ms::QueryMsg::MultisigIsm(x)));
    r.map(|x| (x.validators.iter().map(|v| v.to_vec()).collect(), x.threshold))
}
fn ms_info(s: &Store, m: &[u8]) -> Option<(Vec<Vec<u8>>, u8)> {
    let x = IsmQueryMsg::VerifyInfo { message: m.to_vec().into() };
    let r: Option<VerifyInfoResponse> = qry(s, &Q::none(), |d| hpl_ism_multisig::contract::query(d, env(), ms::QueryMsg::Ism(x)));
    r.map(|x| (x.validators.iter().map(|v| v.to_vec()).collect(), x.threshold))
}
/// Digest the validators sign, from the protocol specification.
fn digest(origin: u32, tree: &[u8], root: &[u8], index: &[u8], id: &[u8]) -> Vec<u8> {
    let mut d = origin.to_be_bytes().to_vec();
    d.extend_from_slice(tree);
    d.extend_from_slice(b"HYPERLANE");
    let mut c = keccak(&d);
    c.extend_from_slice(root);
    c.extend_from_slice(index);
    c.extend_from_slice(id);
    let mut e = b"\x19Ethereum Signed Message:\n32".to_vec();
    e.extend_from_slice(&keccak(&c));
    keccak(&e)
}
fn signer(digest: &[u8], sig: &[u8]) -> Vec<u8> {
    let p = recover_model(digest, &sig[..64], sig[64].wrapping_sub(27));
    keccak(&p[1..])[12..].to_vec()
}

/// `n` enrolled validators, `k` signatures, any threshold.
fn ms_case(n: usize, k: usize, badrec: bool) {
    let mut s = ms_setup();
    let domain = sym::u32_("domain");
    let t = 1 + sym::choice("threshold", n);
    let vals: Vec<Vec<u8>> = (0..n).map(|_| sym::vec("validator", 20)).collect();
    sym::check(ms_set(&mut s, "owner", domain, t as u8, &vals), "the owner can enroll validators");
    let m = wire(3, sym::u32_("nonce"), domain, &sym::bytes("sender"), 5, &[6; 32], &sym::vec("body", 1));
    let mut meta = sym::vec("meta", 68);
    let mut sigs = vec![];
    for _ in 0..k {
        let mut x = sym::vec("sig", 64);
        x.push(if badrec { sym::u8_("recid") } else { 27 + (sym::u8_("recid") & 1) });
        sigs.push(x);
    }
    for x in &sigs {
        meta.extend_from_slice(x);
    }
    // trailing bytes shorter than a signature carry no signature
    if sym::flag("trailing") {
        meta.extend_from_slice(&[7; 64]);
    }
    let h = digest(domain, &meta[..32], &meta[32..64], &meta[64..68], &keccak(&m));
    let who: Vec<Vec<u8>> = sigs.iter().map(|x| signer(&h, x)).collect();
    // number of distinct enrolled addresses that signed
    let mut count = 0u8;
    for i in 0..n {
        let mut hit = 0u8;
        for j in 0..k {
            let valid = (sigs[j][64] == 27) | (sigs[j][64] == 28);
            hit |= (valid & sym::eq(&who[j], &vals[i])) as u8;
        }
        for j in 0..i {
            hit &= !sym::eq(&vals[j], &vals[i]) as u8;
        }
        count += hit;
    }
    let r = ms_verify(&s, &meta, &m);
    sym::check(sym::implies(r == Some(true), count >= t as u8), "acceptance needs the signatures of threshold many distinct enrolled validators over this message");
    if !badrec {
        sym::check(r == Some(count >= t as u8), "threshold many distinct validator signatures are always accepted, fewer never");
    }
    if r == Some(true) {
        sym::reach("accepted");
    } else {
        sym::reach("refused");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_i01_verify() {
    let (n, k) = [(1, 1), (2, 2), (1, 3), (2, 0), (3, 2), (3, 3)][sym::choice("shape", 6)];
    ms_case(n, k, k < 3 && sym::flag("anyrec"))
}
#[no_mangle]
pub extern "C-unwind" fn h_i01d_verify() {
    let (n, k) = [(2, 3), (1, 5), (2, 4)][sym::choice("shape", 3)];
    ms_case(n, k, false)
}
/// Large sets: every one of many signatures is read and counts.
#[no_mangle]
pub extern "C-unwind" fn h_i01_large() {
    let mut s = ms_setup();
    let n = 40usize;
    // public keys, and the addresses they have
    let key = |i: usize| [vec![4], vec![200 - i as u8; 64]].concat();
    let vals: Vec<Vec<u8>> = (0..n).map(|i| keccak(&key(i)[1..])[12..].to_vec()).collect();
    let missing = sym::flag("a stranger instead");
    let at = [0, 7, n - 1][sym::choice("signature", 3)];
    sym::check(ms_set(&mut s, "owner", 7, n as u8, &vals), "the owner can enroll validators");
    let m = wire(3, 1, 7, &[1; 32], 5, &[6; 32], &[2]);
    let mut meta = vec![3; 68];
    let h = digest(7, &meta[..32], &meta[32..64], &meta[64..68], &keccak(&m));
    for i in 0..n {
        let mut sig = vec![i as u8 + 1; 64];
        let k = if missing && i == at { key(n) } else { key(i) };
        recover_known(&h, &sig, 0, &k);
        sig.push(27);
        meta.extend(sig);
    }
    let r = ms_verify(&s, &meta, &m);
    sym::check(r == Some(!missing), "threshold many distinct validator signatures are always accepted, fewer never");
    if missing {
        sym::reach("one short");
    } else {
        sym::reach("complete");
    }
}
/// The validator set consulted is the one of the message's origin domain.
#[no_mangle]
pub extern "C-unwind" fn h_i01_enrolled() {
    let mut s = ms_setup();
    let (d1, d2, origin) = (sym::u32_("d1"), sym::u32_("d2"), sym::u32_("origin"));
    sym::assume(d1 != d2);
    let m = wire(3, sym::u32_("nonce"), origin, &sym::bytes("sender"), sym::u32_("dest"), &sym::bytes("recipient"), &[]);
    let mut meta = sym::vec("meta", 68);
    let mut sig = sym::vec("sig", 64);
    sig.push(27);
    meta.extend_from_slice(&sig);
    let who = signer(&digest(origin, &meta[..32], &meta[32..64], &meta[64..68], &keccak(&m)), &sig);
    let other = sym::vec("other", 20);
    sym::assume(!sym::eq(&other, &who));
    sym::check(ms_set(&mut s, "owner", d1, 1, &[who.clone()]), "enroll the signer for one domain");
    sym::check(ms_set(&mut s, "owner", d2, 1, &[other.clone()]), "enroll another validator for another domain");
    let r = ms_verify(&s, &meta, &m);
    let i = ms_info(&s, &m);
    if origin == d1 {
        sym::check(r == Some(true), "the origin's validator set decides");
        let (v, t) = i.unwrap();
        sym::check((t == 1) & (v.len() == 1) && sym::eq(&v[0], &who), "verify info reports the origin's validators and threshold");
        sym::reach("enrolled");
    } else if origin == d2 {
        sym::check(r != Some(true), "a validator of another domain has no say");
        let (v, t) = i.unwrap();
        sym::check((t == 1) & (v.len() == 1) && sym::eq(&v[0], &other), "verify info reports the origin's validators and threshold");
        sym::reach("foreign");
    } else {
        sym::check(r != Some(true), "nothing verifies for a domain without validators");
        sym::check(i.is_none(), "no verify info for a domain without validators");
        sym::reach("unenrolled");
    }
}
/// Malformed metadata or messages never verify.
#[no_mangle]
pub extern "C-unwind" fn h_i01_parse() {
    let mut s = ms_setup();
    let domain = sym::u32_("domain");
    sym::check(ms_set(&mut s, "owner", domain, 1, &[sym::vec("validator", 20)]), "enroll");
    let ml = [0, 31, 64, 67, 68, 132][sym::choice("metalen", 6)];
    let bl = [0, 40, 76, 77][sym::choice("msglen", 4)];
    let r = ms_verify(&s, &sym::vec("meta", ml), &sym::vec("message", bl));
    sym::check(r != Some(true), "no message verifies without a complete signature");
    sym::reach("refused");
}

fn ms_history(k: usize, most: usize) {
    let mut s = ms_setup();
    let domain = sym::u32_("domain");
    let mut cur: Option<(Vec<Vec<u8>>, u8)> = None;
    for _ in 0..k {
        let owner = sym::flag("byowner");
        let who = if owner { "owner".to_string() } else { sym::name("stranger", 5) };
        let owner = owner || who == "owner";
        if sym::flag("unset") {
            let r = ms_exec(&mut s, &who, ms::ExecuteMsg::UnsetDomain { domain });
            sym::check(r == owner, "exactly the owner can remove a domain");
            if r {
                cur = None;
            }
        } else {
            let n = sym::choice("n", most + 1);
            let mut v: Vec<Vec<u8>> = (0..n).map(|_| sym::vec("validator", 20)).collect();
            let bad = n > 0 && sym::flag("badlen");
            if bad {
                v[n - 1] = vec![1; [0, 19, 21, 32][sym::choice("len", 4)]];
            }
            let t = sym::u8_("threshold");
            let ok = all(&[owner, !bad, t > 0, t as usize <= n]);
            let r = ms_set(&mut s, &who, domain, t, &v);
            sym::check(r == ok, "exactly the owner can enroll, 20-byte validators only, with a threshold between one and their number");
            if r {
                cur = Some((v, t));
                sym::reach("enrolled");
            }
        }
        let e = ms_enrolled(&s, domain);
        sym::check(e.is_some() == cur.is_some(), "exactly enrolled domains have validators");
        if let (Some((v, t)), Some((cv, ct))) = (e, &cur) {
            sym::check((t == *ct) & (v.len() == cv.len()), "the enrolled set is reported as configured");
            for i in 0..v.len() {
                sym::check(sym::eq(&v[i], &cv[i]), "the enrolled set is reported as configured");
            }
        }
    }
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_i02_config() {
    ms_history(2, 2)
}
#[no_mangle]
pub extern "C-unwind" fn h_i02d_config() {
    if sym::flag("long") {
        ms_history(3, 1)
    } else {
        ms_history(2, 3)
    }
}
/// Large sets are kept whole.
#[no_mangle]
pub extern "C-unwind" fn h_i02_many() {
    let mut s = ms_setup();
    let domain = sym::u32_("domain");
    let n = [9, 40, 255, 256, 258][sym::choice("n", 5)];
    let mut v: Vec<Vec<u8>> = (0..n).map(|i| [&[7; 18][..], &[(i >> 8) as u8, i as u8]].concat()).collect();
    v[n - 2] = sym::vec("validator", 20);
    let t = sym::u8_("threshold");
    let r = ms_set(&mut s, "owner", domain, t, &v);
    sym::check(r == ((t > 0) & (t as usize <= n)), "a threshold lies between one and the number of validators");
    if r {
        let (got, gt) = ms_enrolled(&s, domain).unwrap();
        sym::check((got.len() == n) & (gt == t), "the whole set is enrolled");
        sym::check(all(&(0..n).map(|i| sym::eq(&got[i], &v[i])).collect::<Vec<_>>()), "every validator is enrolled in its place");
        sym::reach("large set");
    } else {
        sym::reach("refused");
    }
}
/// Domains are independent of each other.
#[no_mangle]
pub extern "C-unwind" fn h_i02_domains() {
    let mut s = ms_setup();
    let (a, b, c) = (sym::u32_("a"), sym::u32_("b"), sym::u32_("c"));
    sym::assume(a != b);
    let (va, vb) = (sym::vec("va", 20), sym::vec("vb", 20));
    sym::check(ms_set(&mut s, "owner", a, 1, &[va.clone()]), "enroll");
    sym::check(ms_set(&mut s, "owner", b, 2, &[vb.clone(), va.clone()]), "enroll");
    let set = sym::flag("set");
    if set {
        sym::check(ms_set(&mut s, "owner", c, 1, &[vec![3; 20]]), "enroll");
    } else {
        sym::check(ms_exec(&mut s, "owner", ms::ExecuteMsg::UnsetDomain { domain: c }), "unset");
    }
    let (ea, eb, ec) = (ms_enrolled(&s, a), ms_enrolled(&s, b), ms_enrolled(&s, c));
    sym::check(ec.is_some() == set, "the changed domain has its new configuration");
    if c != a {
        let (v, t) = ea.unwrap();
        sym::check((t == 1) & (v.len() == 1) && sym::eq(&v[0], &va), "other domains keep their validators");
    }
    if c != b {
        let (v, t) = eb.unwrap();
        sym::check((t == 2) & (v.len() == 2) && sym::eq(&v[0], &vb), "other domains keep their validators");
    }
    sym::reach("end");
}

// ---------------------------------------------------------------- aggregate

fn ag_init(isms: &[String], threshold: u8) -> Option<Store> {
    let mut s = Store::new();
    let m = ag::InstantiateMsg { owner: "owner".into(), isms: isms.to_vec(), threshold };
    tx(&mut s, &Q::none(), |d| hpl_ism_aggregate::instantiate(d, env(), info("deployer", vec![]), m)).map(|_| s)
}
fn ag_exec(s: &mut Store, who: &str, m: ag::ExecuteMsg) -> bool {
    tx(s, &Q::none(), |d| hpl_ism_aggregate::execute(d, env(), info(who, vec![]), m)).is_some()
}
fn ag_verify(s: &Store, q: &Q, meta: &[u8], m: &[u8]) -> Option<bool> {
    let x = IsmQueryMsg::Verify { metadata: meta.to_vec().into(), message: m.to_vec().into() };
    let r: Option<VerifyResponse> = qry(s, q, |d| hpl_ism_aggregate::query(d, env(), ag::QueryMsg::Ism(x)));
    r.map(|x| x.verified)
}
fn ag_isms(s: &Store) -> (Vec<String>, u8) {
    let x = ag::AggregateIsmQueryMsg::Isms {};
    let r: Option<ag::IsmsResponse> = qry(s, &Q::none(), |d| hpl_ism_aggregate::query(d, env(), ag::QueryMsg::AggregateIsm(x)));
    let r = r.unwrap();
    (r.isms, r.threshold)
}
/// segment designated for module `i`; None if the header or range is invalid
fn segment(meta: &[u8], i: usize) -> Option<Vec<u8>> {
    if meta.len() < 8 * i + 8 {
        return None;
    }
    let f = |o: usize| u32::from_be_bytes([meta[o], meta[o + 1], meta[o + 2], meta[o + 3]]) as usize;
    let (a, b) = (f(8 * i), f(8 * i + 4));
    if a > b || b > meta.len() {
        return None;
    }
    Some(meta[a..b].to_vec())
}

fn ag_case(n: usize) {
    let t = 1 + sym::choice("threshold", n);
    // arbitrary distinct modules in arbitrary order
    let isms: Vec<String> = (0..n).map(|_| sym::name("ism", 3)).collect();
    for i in 0..n {
        for j in 0..i {
            sym::assume(!seq(&isms[i], &isms[j]));
        }
    }
    let s = ag_init(&isms, t as u8).unwrap();
    // header with consecutive ranges of one byte, then the payload
    let mut meta = vec![];
    for i in 0..n {
        let a = (8 * n + i) as u32;
        meta.extend_from_slice(&a.to_be_bytes());
        meta.extend_from_slice(&(a + 1).to_be_bytes());
    }
    meta.extend_from_slice(&sym::vec("payload", n));
    let m = sym::vec("message", 78);
    let answers: Vec<usize> = (0..n).map(|_| sym::choice("answer", 3)).collect();
    let asked = RefCell::new(vec![]);
    let smart = |a: &str, b: &Binary| {
        let ExpectedIsmQueryMsg::Ism(IsmQueryMsg::Verify { metadata, message }) = from_json(b).ok()? else { return None };
        for i in 0..n {
            if seq(a, &isms[i]) {
                asked.borrow_mut().push(i);
                sym::check(sym::eq(message.as_slice(), &m), "modules judge exactly the submitted message");
                sym::check(sym::eq(metadata.as_slice(), &segment(&meta, i).unwrap()), "every module sees exactly its own metadata segment");
                return if answers[i] == 2 { None } else { some_js(&VerifyResponse { verified: answers[i] == 1 }) };
            }
        }
        sym::fail("only configured modules are asked");
        None
    };
    let q = Q::smart(&smart);
    let r = ag_verify(&s, &q, &meta, &m);
    let asked = asked.borrow();
    let yes = (0..n).filter(|i| answers[*i] == 1 && asked.contains(i)).count();
    let total = (0..n).filter(|i| answers[*i] == 1).count();
    let broken = answers.iter().any(|x| *x == 2);
    sym::check(r != Some(true) || yes >= t, "acceptance needs threshold many distinct modules to accept");
    if !broken {
        sym::check(r == Some(total >= t), "threshold many accepting modules suffice, fewer never do");
    }
    if r == Some(true) {
        sym::reach("accepted");
    } else {
        sym::reach("refused");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_i03_verify() {
    ag_case(1 + sym::choice("n", 3))
}
#[no_mangle]
pub extern "C-unwind" fn h_i03d_verify() {
    ag_case(4)
}
/// Twelve modules, of which the first `k` accept.
#[no_mangle]
pub extern "C-unwind" fn h_i03_many() {
    const N: usize = 12;
    let isms: Vec<String> = (0..N).map(|i| format!("ism{}", (b'a' + i as u8) as char)).collect();
    let t = sym::u8_("threshold");
    let Some(s) = ag_init(&isms, t) else {
        sym::reach("no such threshold");
        return;
    };
    let mut meta = vec![];
    for i in 0..N {
        let a = (8 * N + i) as u32;
        meta.extend_from_slice(&a.to_be_bytes());
        meta.extend_from_slice(&(a + 1).to_be_bytes());
    }
    meta.extend_from_slice(&sym::vec("payload", N));
    let k = sym::u8_("accepting");
    let last = sym::flag("the last ones");
    let m = sym::vec("message", 77);
    let smart = |a: &str, b: &Binary| {
        let ExpectedIsmQueryMsg::Ism(IsmQueryMsg::Verify { metadata, .. }) = from_json(b).ok()? else { return None };
        let i = isms.iter().position(|x| x == a).expect("only configured modules are asked");
        sym::check(sym::eq(metadata.as_slice(), &meta[8 * N + i..8 * N + i + 1]), "every module sees exactly its own metadata segment");
        let rank = if last { N - 1 - i } else { i };
        some_js(&VerifyResponse { verified: (rank as u8) < k })
    };
    let r = ag_verify(&s, &Q::smart(&smart), &meta, &m);
    sym::check(r == Some(k >= t), "acceptance needs threshold many modules to accept");
    if k >= t {
        sym::reach("enough of many");
    }
}
/// A module listed more than once still is one module.
#[no_mangle]
pub extern "C-unwind" fn h_i03_repeated() {
    let shape: &[usize] = [&[0, 0][..], &[0, 0, 1], &[0, 1, 0], &[1, 0, 0]][sym::choice("shape", 4)];
    let n = shape.len();
    let names = [sym::name("ism", 3), sym::name("ism", 3)];
    sym::assume(!seq(&names[0], &names[1]));
    let isms: Vec<String> = shape.iter().map(|x| names[*x].clone()).collect();
    let t = 1 + sym::choice("threshold", n);
    let Some(s) = ag_init(&isms, t as u8) else {
        sym::reach("refused");
        return;
    };
    let mut meta = vec![];
    for i in 0..n {
        let a = (8 * n + i) as u32;
        meta.extend_from_slice(&a.to_be_bytes());
        meta.extend_from_slice(&(a + 1).to_be_bytes());
    }
    meta.extend_from_slice(&sym::vec("payload", n));
    let m = sym::vec("message", 77);
    let accept = [sym::flag("accept"), sym::flag("accept")];
    let smart = |a: &str, b: &Binary| {
        let ExpectedIsmQueryMsg::Ism(IsmQueryMsg::Verify { metadata, message }) = from_json(b).ok()? else { return None };
        sym::check(sym::eq(message.as_slice(), &m), "modules judge exactly the submitted message");
        for x in 0..2 {
            if seq(a, &names[x]) {
                let mut own = false;
                for i in 0..n {
                    if shape[i] == x {
                        own |= sym::eq(metadata.as_slice(), &segment(&meta, i).unwrap());
                    }
                }
                sym::check(own, "every module sees a metadata segment of its own");
                return some_js(&VerifyResponse { verified: accept[x] });
            }
        }
        sym::fail("only configured modules are asked");
        None
    };
    let r = ag_verify(&s, &Q::smart(&smart), &meta, &m);
    let distinct = (0..2).filter(|x| accept[*x] && shape.contains(x)).count();
    sym::check(r != Some(true) || distinct >= t, "acceptance needs threshold many distinct modules to accept");
    if r == Some(true) {
        sym::reach("accepted");
    } else {
        sym::reach("refused");
    }
}
/// Arbitrary range headers: modules only ever see bytes the header designates.
#[no_mangle]
pub extern "C-unwind" fn h_i03_segments() {
    let isms: Vec<String> = if sym::flag("order") { vec!["aa".into(), "bb".into()] } else { vec!["bb".into(), "aa".into()] };
    let t = 1 + sym::choice("threshold", 2);
    let s = ag_init(&isms, t as u8).unwrap();
    let len = [0, 15, 16, 19][sym::choice("len", 4)];
    let mut meta = sym::vec("payload", len);
    if len >= 16 {
        for i in 0..2 {
            let (a, b) = [(16, 19), (0, 19), (16, 16), (18, 17), (17, 20), (u32::MAX, 3), (19, 19)][sym::choice("range", 7)];
            meta[8 * i..8 * i + 4].copy_from_slice(&(a as u32).to_be_bytes());
            meta[8 * i + 4..8 * i + 8].copy_from_slice(&(b as u32).to_be_bytes());
        }
    }
    let m = sym::vec("message", 77);
    let asked = RefCell::new(vec![]);
    let smart = |a: &str, b: &Binary| {
        let ExpectedIsmQueryMsg::Ism(IsmQueryMsg::Verify { metadata, message }) = from_json(b).ok()? else { return None };
        let i = if a == isms[0] { 0 } else { 1 };
        sym::check(a == isms[i], "only configured modules are asked");
        sym::check(sym::eq(message.as_slice(), &m), "modules judge exactly the submitted message");
        let g = segment(&meta, i);
        sym::check(g.is_some() && sym::eq(metadata.as_slice(), &g.unwrap()), "every module sees exactly its own metadata segment");
        asked.borrow_mut().push(i);
        some_js(&VerifyResponse { verified: true })
    };
    let q = Q::smart(&smart);
    let r = ag_verify(&s, &q, &meta, &m);
    let good = segment(&meta, 0).is_some() && segment(&meta, 1).is_some();
    if good {
        sym::check(r == Some(true), "well-formed metadata is judged by the modules");
        sym::reach("wellformed");
    }
    if r == Some(true) {
        let a = asked.borrow();
        let mut d = 0;
        for i in 0..2 {
            d += a.contains(&i) as usize;
        }
        sym::check(d >= t, "acceptance needs threshold many distinct modules to accept");
    } else {
        sym::reach("malformed");
    }
}

fn ag_history(k: usize) {
    let (i0, t0) = (vec![sym::name("ism", 3), sym::name("ism", 3)], 1 + sym::choice("threshold", 2) as u8);
    let mut s = ag_init(&i0, t0).unwrap();
    let mut cur = (i0, t0);
    for _ in 0..k {
        let owner = sym::flag("byowner");
        let who = if owner { "owner".to_string() } else { sym::name("stranger", 5) };
        let owner = owner || who == "owner";
        let n = sym::choice("n", 4);
        let mut isms: Vec<String> = (0..n).map(|_| sym::name("ism", 3)).collect();
        let bad = n > 0 && sym::flag("badaddr");
        if bad {
            isms[n - 1] = "!bad".into();
        }
        let t = sym::u8_("threshold");
        let ok = all(&[owner, !bad, t > 0, t as usize <= n]);
        let r = ag_exec(&mut s, &who, ag::ExecuteMsg::SetIsms { isms: isms.clone(), threshold: t });
        sym::check(r == ok, "exactly the owner can replace the modules, with a threshold between one and their number");
        if r {
            cur = (isms, t);
            sym::reach("replaced");
        }
        let (i, t) = ag_isms(&s);
        sym::check((i.len() == cur.0.len()) & (t == cur.1), "the configuration is reported as last set");
        for x in 0..i.len() {
            sym::check(seq(&i[x], &cur.0[x]), "the configuration is reported as last set");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_i04_config() {
    ag_history(1)
}
#[no_mangle]
pub extern "C-unwind" fn h_i04d_config() {
    ag_history(2)
}
/// Any initial configuration that is accepted requires at least one module
/// to accept, and can be satisfied.
#[no_mangle]
pub extern "C-unwind" fn h_i04_init() {
    let n = sym::choice("n", 4);
    let isms: Vec<String> = ["aa", "bb", "cc"][..n].iter().map(|x| x.to_string()).collect();
    let t = sym::u8_("threshold");
    let s = ag_init(&isms, t);
    sym::check(s.is_some() == ((t > 0) & (t as usize <= n)), "an initial threshold lies between one and the number of modules");
    let Some(s) = s else {
        sym::reach("refused");
        return;
    };
    let mut meta = vec![];
    for _ in 0..n {
        meta.extend_from_slice(&((8 * n) as u32).to_be_bytes());
        meta.extend_from_slice(&((8 * n) as u32).to_be_bytes());
    }
    let v = sym::flag("accept");
    let smart = |_: &str, _: &Binary| some_js(&VerifyResponse { verified: v });
    let r = ag_verify(&s, &Q::smart(&smart), &meta, &sym::vec("message", 77));
    sym::check(r == Some(v), "no module accepting means refusal, all accepting means acceptance");
    sym::reach("accepted");
}

/// Large sets are kept whole.
#[no_mangle]
pub extern "C-unwind" fn h_i04_many() {
    let n = [9, 40, 255, 256, 258][sym::choice("n", 5)];
    let isms: Vec<String> = (0..n).map(|i| format!("ism{i}")).collect();
    let t = sym::u8_("threshold");
    let (mut s, r);
    if sym::flag("at start") {
        let x = ag_init(&isms, t);
        r = x.is_some();
        s = x.unwrap_or_default();
    } else {
        s = ag_init(&["aa".to_string()], 1).unwrap();
        r = ag_exec(&mut s, "owner", ag::ExecuteMsg::SetIsms { isms: isms.clone(), threshold: t });
    }
    sym::check(r == ((t > 0) & (t as usize <= n)), "a threshold lies between one and the number of modules");
    if r {
        let (got, gt) = ag_isms(&s);
        sym::check((got == isms) & (gt == t), "the whole set is configured");
        sym::reach("large set");
    } else {
        sym::reach("refused");
    }
}

// ------------------------------------------------------------------ routing

fn ro_setup(isms: Vec<ro::IsmSet>) -> Option<Store> {
    let mut s = Store::new();
    let m = ro::InstantiateMsg { owner: "owner".into(), isms };
    tx(&mut s, &Q::none(), |d| hpl_ism_routing::contract::instantiate(d, env(), info("deployer", vec![]), m)).map(|_| s)
}
fn ro_exec(s: &mut Store, who: &str, m: ro::ExecuteMsg) -> bool {
    tx(s, &Q::none(), |d| hpl_ism_routing::contract::execute(d, env(), info(who, vec![]), m)).is_some()
}
fn ro_q<T: serde::de::DeserializeOwned>(s: &Store, q: &Q, m: ro::QueryMsg) -> Option<T> {
    qry(s, q, |d| hpl_ism_routing::contract::query(d, env(), m))
}
fn origin_msg(origin: u32) -> Vec<u8> {
    wire(3, sym::u32_("nonce"), origin, &sym::bytes("sender"), sym::u32_("dest"), &sym::bytes("recipient"), &sym::vec("body", 1))
}
#[no_mangle]
pub extern "C-unwind" fn h_i05_route() {
    let (d1, d2, origin) = (sym::u32_("d1"), sym::u32_("d2"), sym::u32_("origin"));
    sym::assume(d1 != d2);
    let (i1, i2) = (sym::name("ism", 4), sym::name("ism", 4));
    // the last entry for a domain counts
    let set = vec![ro::IsmSet { domain: d2, address: "first".into() }, ro::IsmSet { domain: d1, address: i1.clone() }, ro::IsmSet { domain: d2, address: i2.clone() }];
    let s = ro_setup(set).unwrap();
    let m = origin_msg(origin);
    let meta = sym::vec("meta", 2);
    let ans = sym::choice("answer", 3);
    let vals = vec![HexBinary::from(sym::vec("validator", 20))];
    let th = sym::u8_("threshold");
    let asked = RefCell::new(vec![]);
    let smart = |a: &str, b: &Binary| {
        let ExpectedIsmQueryMsg::Ism(x) = from_json(b).ok()?;
        asked.borrow_mut().push(a.to_string());
        // the module asked fails; any other one would answer
        if ans == 2 && asked.borrow().len() == 1 {
            return None;
        }
        match x {
            IsmQueryMsg::Verify { metadata, message } => {
                sym::check(sym::eq(metadata.as_slice(), &meta) & sym::eq(message.as_slice(), &m), "the module judges exactly the submitted message and metadata");
                some_js(&VerifyResponse { verified: ans == 1 })
            }
            IsmQueryMsg::VerifyInfo { message } => {
                sym::check(sym::eq(message.as_slice(), &m), "the module is asked about exactly the submitted message");
                some_js(&VerifyInfoResponse { threshold: th, validators: vals.clone() })
            }
            _ => None,
        }
    };
    let q = Q::smart(&smart);
    let want = if origin == d1 {
        Some(&i1)
    } else if origin == d2 {
        Some(&i2)
    } else {
        None
    };
    match sym::choice("query", 3) {
        0 => {
            let r: Option<VerifyResponse> = ro_q(&s, &q, ro::QueryMsg::Ism(IsmQueryMsg::Verify { metadata: meta.clone().into(), message: m.clone().into() }));
            match want {
                None => sym::check(r.is_none(), "no verdict without a module for the origin"),
                Some(_) => sym::check(r.map(|x| x.verified) == [Some(false), Some(true), None][ans], "the verdict is that of the origin's module"),
            }
            sym::reach("verify");
        }
        1 => {
            let r: Option<VerifyInfoResponse> = ro_q(&s, &q, ro::QueryMsg::Ism(IsmQueryMsg::VerifyInfo { message: m.clone().into() }));
            sym::check(r.is_some() == (want.is_some() && ans != 2), "verification info is available exactly when the origin's module gives it");
            if let Some(r) = r {
                sym::check((r.threshold == th) & (r.validators.len() == 1) && sym::eq(r.validators[0].as_slice(), vals[0].as_slice()), "the verification info is that of the origin's module");
                sym::reach("info");
            }
        }
        _ => {
            let r: Option<ro::RouteResponse> = ro_q(&s, &q, ro::QueryMsg::RoutingIsm(ro::RoutingIsmQueryMsg::Route { message: m.clone().into() }));
            match (r, want) {
                (Some(r), Some(w)) => sym::check(seq(&r.ism, w), "the route is the module set for the origin"),
                (r, w) => sym::check(r.is_none() && w.is_none(), "a route exists exactly for configured origins"),
            }
            sym::reach("route");
            return;
        }
    }
    let a = asked.borrow();
    match want {
        None => sym::check(a.is_empty(), "no module is asked without a route"),
        Some(w) => {
            sym::check(a.len() == 1 && seq(&a[0], w), "exactly the module of the origin is asked")
        }
    }
}
fn ro_route(s: &Store, d: u32) -> Option<String> {
    let m = wire(3, 0, d, &[1; 32], 2, &[2; 32], &[]);
    let r: Option<ro::RouteResponse> = ro_q(s, &Q::none(), ro::QueryMsg::RoutingIsm(ro::RoutingIsmQueryMsg::Route { message: m.into() }));
    r.map(|x| x.ism)
}
/// The table changes only through its owner, one domain at a time.
fn ro_table(k: usize) {
    let mut s = ro_setup(vec![]).unwrap();
    let d = [sym::u32_("d1"), sym::u32_("d2")];
    sym::assume(d[0] != d[1]);
    let mut cur: [Option<String>; 2] = [None, None];
    for _ in 0..k {
        let owner = sym::flag("byowner");
        let who = if owner { "owner".to_string() } else { sym::name("stranger", 5) };
        let owner = owner || who == "owner";
        match sym::choice("op", 5) {
            4 => {
                let r = ro_exec(&mut s, &who, ro::ExecuteMsg::Unset { domains: vec![d[0], d[0]] });
                sym::check(r == owner, "exactly the owner can remove routes");
                if r {
                    cur[0] = None;
                }
            }
            0 => {
                let r = ro_exec(&mut s, &who, ro::ExecuteMsg::Unset { domains: vec![d[0], d[1]] });
                sym::check(r == owner, "exactly the owner can remove routes");
                if r {
                    cur = [None, None];
                }
            }
            1 => {
                let i = sym::choice("which", 2);
                let r = ro_exec(&mut s, &who, ro::ExecuteMsg::Unset { domains: vec![d[i]] });
                sym::check(r == owner, "exactly the owner can remove routes");
                if r {
                    cur[i] = None;
                }
            }
            2 => {
                let i = sym::choice("which", 2);
                let a = sym::name("ism", 4);
                let r = ro_exec(&mut s, &who, ro::ExecuteMsg::Set { ism: ro::IsmSet { domain: d[i], address: a.clone() } });
                sym::check(r == owner, "exactly the owner can set routes");
                if r {
                    cur[i] = Some(a);
                    sym::reach("set");
                }
            }
            _ => {
                let r = ro_exec(&mut s, &who, ro::ExecuteMsg::Set { ism: ro::IsmSet { domain: d[0], address: "!x".into() } });
                sym::check(!r, "invalid module addresses are refused");
            }
        }
        for i in 0..2 {
            match (ro_route(&s, d[i]), &cur[i]) {
                (Some(a), Some(b)) => sym::check(seq(&a, b), "routes are those last set"),
                (a, b) => sym::check(a.is_none() && b.is_none(), "exactly set domains have a route"),
            }
        }
    }
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_i05_table() {
    ro_table(2)
}
#[no_mangle]
pub extern "C-unwind" fn h_i05d_table() {
    ro_table(3)
}

// ----------------------------------------------------------------- pausable

fn pausing(k: usize) {
    let mut s = Store::new();
    let mut paused = sym::bool_("paused");
    let m = pz::InstantiateMsg { owner: "owner".into(), paused };
    let r = tx(&mut s, &Q::none(), |d| hpl_ism_pausable::instantiate(d, env(), info("deployer", vec![]), m));
    sym::check(r.is_some(), "instantiation succeeds");
    if sym::flag("offered") {
        let m = pz::ExecuteMsg::Ownable(OwnableMsg::InitOwnershipTransfer { next_owner: "other".into() });
        sym::check(tx(&mut s, &Q::none(), |d| hpl_ism_pausable::execute(d, env(), info("owner", vec![]), m)).is_some(), "the owner offers the ownership");
    }
    for i in 0..=k {
        let x = IsmQueryMsg::Verify { metadata: sym::vec("meta", 1).into(), message: sym::vec("message", 3).into() };
        let r: Option<VerifyResponse> = qry(&s, &Q::none(), |d| hpl_ism_pausable::query(d, env(), pz::QueryMsg::Ism(x)));
        sym::check((r.map(|x| x.verified) == Some(true)) == !paused, "messages verify exactly while not paused");
        let r: Option<PauseInfoResponse> = qry(&s, &Q::none(), |d| hpl_ism_pausable::query(d, env(), pz::QueryMsg::Pausable(PausableQueryMsg::PauseInfo {})));
        sym::check(r.unwrap().paused == paused, "the pause state is reported");
        if i == k {
            break;
        }
        let owner = sym::flag("byowner");
        let who = if owner { "owner".to_string() } else { sym::name("stranger", 5) };
        let owner = owner || who == "owner";
        let want = sym::flag("pause");
        let m = if want { PausableMsg::Pause {} } else { PausableMsg::Release {} };
        let r = tx(&mut s, &Q::none(), |d| hpl_ism_pausable::execute(d, env(), info(&who, vec![]), pz::ExecuteMsg::Pausable(m)));
        sym::check(r.is_none() | owner, "only the owner changes the pause state");
        sym::check(sym::implies(owner & (paused != want), r.is_some()), "the owner can always change the pause state");
        if r.is_some() {
            paused = want;
            sym::reach("changed");
        }
    }
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_i06_pause() {
    pausing(2)
}
#[no_mangle]
pub extern "C-unwind" fn h_i06d_pause() {
    pausing(4)
}
