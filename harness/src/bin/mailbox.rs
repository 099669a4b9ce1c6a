//! Mailbox contract: dispatch, process, configuration.
use cosmwasm_std::*;
use hpl_interface::core::mailbox::*;
use hpl_interface::core::ExpectedHandleMsg;
use hpl_interface::hook::*;
use hpl_interface::ism::*;
use hpl_mailbox::contract::{execute, instantiate, query};
use std::cell::{Cell, RefCell};
use vh::*;

sym::harnesses! {
    h_m01_step, h_m01_hist, h_m01_reject, h_m01d_hist,
    h_m02_hist, h_m02d_hist, h_m02d_bytes, h_m02_any,
    h_m03_auth, h_m03_short,
    h_m04_funds, h_m04d_funds,
    h_m05_quote, h_m05_msg, h_m05d_quote,
    h_m06_config, h_m06d_config,
}

fn setup_hrp(domain: u32, hrp: &str) -> Store {
    let mut s = Store::new();
    let q = Q::none();
    let ok = tx(&mut s, &q, |d| {
        instantiate(d, env(), info("deployer", vec![]), InstantiateMsg { hrp: hrp.into(), owner: "owner".into(), domain })
    });
    sym::check(ok.is_some(), "instantiation with a valid configuration succeeds");
    s
}
fn setup(domain: u32) -> Store {
    setup_hrp(domain, "osmo")
}
fn exec(s: &mut Store, q: &Q, who: &str, funds: Vec<Coin>, m: ExecuteMsg) -> Option<Response> {
    tx(s, q, |d| execute(d, env(), info(who, funds), m))
}
fn must(s: &mut Store, m: ExecuteMsg) {
    let q = Q::none();
    let r = exec(s, &q, "owner", vec![], m);
    sym::check(r.is_some(), "the owner can configure the mailbox");
}
fn configure(s: &mut Store) {
    must(s, ExecuteMsg::SetDefaultHook { hook: "dhook".into() });
    must(s, ExecuteMsg::SetRequiredHook { hook: "ahook".into() });
    must(s, ExecuteMsg::SetDefaultIsm { ism: "dism".into() });
}
fn mq<T: serde::de::DeserializeOwned>(s: &Store, q: &Q, m: MailboxQueryMsg) -> Option<T> {
    qry(s, q, |d| query(d, env(), m.wrap()))
}
fn nonce(s: &Store) -> u32 {
    let r: Option<NonceResponse> = mq(s, &Q::none(), MailboxQueryMsg::Nonce {});
    r.unwrap().nonce
}
fn latest(s: &Store) -> Option<Vec<u8>> {
    let r: Option<LatestDispatchedIdResponse> = mq(s, &Q::none(), MailboxQueryMsg::LatestDispatchId {});
    r.map(|x| x.message_id.to_vec())
}
fn delivered(s: &Store, id: &[u8]) -> bool {
    let r: Option<MessageDeliveredResponse> = mq(s, &Q::none(), MailboxQueryMsg::MessageDelivered { id: id.to_vec().into() });
    r.unwrap().delivered
}
fn quote_msg(m: &Binary) -> QuoteDispatchMsg {
    let ExpectedHookQueryMsg::Hook(HookQueryMsg::QuoteDispatch(m)) = from_json(m).unwrap() else { panic!() };
    m
}
fn sender_raw(n: &str) -> Vec<u8> {
    if sym::flag("contract_sender") {
        sym::vec(n, 32)
    } else {
        sym::vec(n, 20)
    }
}

/// a long body, of which the first and last bytes are arbitrary
fn long(n: &str) -> Vec<u8> {
    let mut v = sym::vec(n, 2);
    v.resize(4998, 0xa5);
    v.extend(sym::vec(n, 2));
    v
}
/// the observable effects of one successful dispatch of `w`
fn check_dispatch(s: &Store, r: &Response, w: &[u8], n: u32, meta: &[u8], hook: &str) {
    let id = keccak(w);
    let resp: DispatchResponse = from_json(r.data.as_ref().unwrap()).unwrap();
    sym::check(sym::eq(resp.message_id.as_slice(), &id), "the dispatch response carries the id of the encoded message");
    sym::check(nonce(s) == n + 1, "the nonce grows by exactly one");
    sym::check(sym::eq(&latest(s).unwrap(), &id), "the latest dispatched id is the id of this message");
    let ev = evattr(r, "mailbox_dispatch_id", "message_id");
    sym::check(ev.is_some() && seq(ev.unwrap(), &hexs(&id)), "the dispatch event announces the message id");
    let ev = evattr(r, "mailbox_dispatch", "message");
    sym::check(ev.is_some() && seq(ev.unwrap(), &hexs(w)), "the dispatch event carries the encoded message");
    let m = msgs(r);
    sym::check(m.len() == 2, "dispatch calls exactly the required hook and the chosen hook");
    for (i, who) in ["ahook", hook].iter().enumerate() {
        let (a, b, _) = wasm_exec(m[i]).unwrap();
        sym::check(seq(a, who), "hooks are called in order: required hook, then chosen hook");
        let ExpectedHookMsg::PostDispatch(p) = from_json(b).unwrap();
        sym::check(sym::eq(p.message.as_slice(), w), "every hook receives exactly the dispatched message");
        sym::check(sym::eq(p.metadata.as_slice(), meta), "every hook receives exactly the caller's metadata");
    }
}

/// One dispatch from an arbitrary nonce.
#[no_mangle]
pub extern "C-unwind" fn h_m01_step() {
    let domain = sym::u32_("domain");
    let hrp = ["osmo", "neutron"][sym::choice("hrp", 2)];
    let mut s = setup_hrp(domain, hrp);
    configure(&mut s);
    let smart = |_: &str, m: &Binary| {
        quote_msg(m);
        some_js(&QuoteDispatchResponse { fees: vec![] })
    };
    let q = Q::smart(&smart);
    // bring the contract to an arbitrary nonce
    let old = s.clone();
    let m0 = DispatchMsg { dest_domain: 1, recipient_addr: vec![7; 32].into(), msg_body: vec![].into(), hook: None, metadata: None };
    let r = exec(&mut s, &q, &bech(hrp, &[1; 20]), vec![], ExecuteMsg::Dispatch(m0));
    sym::check(r.is_some(), "a plain dispatch succeeds");
    let mut n = nonce(&s);
    sym::check(n == 1, "the first dispatch uses nonce zero");
    let x = sym::u32_("nonce");
    if inject(&old, &mut s, b"0", b"1", &to_json_vec(&x).unwrap()) {
        n = x;
    }
    sym::check(nonce(&s) == n, "the nonce query reports the stored nonce");

    let raw = sender_raw("sender");
    let who = bech(hrp, &raw);
    let rec: [u8; 32] = sym::bytes("recipient");
    let body = match sym::choice("bodylen", 4) {
        3 => long("body"),
        i => sym::vec("body", [0, 1, 5][i]),
    };
    let dest = sym::u32_("dest");
    let hook = sym::flag("hook").then(|| sym::name("hook", 5));
    let meta = sym::flag("meta").then(|| sym::vec("meta", 3));
    let m = DispatchMsg {
        dest_domain: dest,
        recipient_addr: rec.to_vec().into(),
        msg_body: body.clone().into(),
        hook: hook.clone(),
        metadata: meta.clone().map(|x| x.into()),
    };
    let before = s.clone();
    let r = exec(&mut s, &q, &who, vec![], ExecuteMsg::Dispatch(m));
    let Some(r) = r else {
        sym::check(n == u32::MAX, "a dispatch with a 32-byte recipient and paid hooks succeeds");
        sym::check(nonce(&s) == nonce(&before), "a failed dispatch leaves the nonce alone");
        sym::reach("nonce exhausted");
        return;
    };
    sym::check(n != u32::MAX, "the nonce never wraps around");
    let w = wire(3, n, domain, &pad32(&raw), dest, &rec, &body);
    check_dispatch(&s, &r, &w, n, &meta.unwrap_or_default(), &hook.unwrap_or("dhook".into()));
    sym::reach("dispatched");
}

fn hist(k: usize) {
    let domain = sym::u32_("domain");
    let mut s = setup(domain);
    configure(&mut s);
    let fail = Cell::new(false);
    let smart = |_: &str, m: &Binary| {
        quote_msg(m);
        if fail.get() {
            return None;
        }
        some_js(&QuoteDispatchResponse { fees: vec![] })
    };
    let q = Q::smart(&smart);
    let mut ids: Vec<Vec<u8>> = vec![];
    let mut n = 0u32;
    for _ in 0..k {
        let raw = sym::vec("sender", 20);
        let rec: [u8; 32] = sym::bytes("recipient");
        let body = sym::vec("body", 1);
        let dest = sym::u32_("dest");
        fail.set(sym::flag("hookfails"));
        let m = DispatchMsg { dest_domain: dest, recipient_addr: rec.to_vec().into(), msg_body: body.clone().into(), hook: None, metadata: None };
        let r = exec(&mut s, &q, &bech("osmo", &raw), vec![], ExecuteMsg::Dispatch(m));
        if fail.get() {
            sym::check(r.is_none(), "dispatch fails when the required hook cannot be quoted");
            sym::check(nonce(&s) == n, "a failed dispatch consumes no nonce");
            let l = latest(&s);
            sym::check(l.is_none() == ids.is_empty(), "a failed dispatch leaves the latest id alone");
            if let (Some(l), Some(p)) = (l, ids.last()) {
                sym::check(sym::eq(&l, p), "a failed dispatch leaves the latest id alone");
            }
            continue;
        }
        let r = r.unwrap();
        let w = wire(3, n, domain, &pad32(&raw), dest, &rec, &body);
        check_dispatch(&s, &r, &w, n, &[], "dhook");
        let id = keccak(&w);
        for p in &ids {
            sym::check(!sym::eq(p, &id), "no two dispatches share a message id");
        }
        ids.push(id);
        n += 1;
    }
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_m01_hist() {
    hist(3)
}
#[no_mangle]
pub extern "C-unwind" fn h_m01d_hist() {
    hist(6)
}

/// Malformed recipients and senders never produce a message.
#[no_mangle]
pub extern "C-unwind" fn h_m01_reject() {
    let mut s = setup(sym::u32_("domain"));
    configure(&mut s);
    let smart = |_: &str, _: &Binary| some_js(&QuoteDispatchResponse { fees: vec![] });
    let q = Q::smart(&smart);
    let n = [0, 1, 20, 31, 33, 64][sym::choice("len", 6)];
    let m = DispatchMsg { dest_domain: sym::u32_("dest"), recipient_addr: sym::vec("recipient", n).into(), msg_body: sym::vec("body", 2).into(), hook: None, metadata: None };
    let r = exec(&mut s, &q, &bech("osmo", &sym::vec("sender", 20)), vec![], ExecuteMsg::Dispatch(m));
    sym::check(r.is_none(), "only 32-byte recipients can be dispatched to");
    sym::check(nonce(&s) == 0 && latest(&s).is_none(), "a rejected dispatch leaves no trace");
    sym::reach("rejected");
}

// ------------------------------------------------------------------ process

struct World {
    /// ISM named by the recipient: None = recipient query fails
    rism: RefCell<Option<Option<String>>>,
    /// outcome of the ISM: None = the query fails
    verify: Cell<Option<bool>>,
    /// the only module with that outcome, when set; every other one accepts
    judge: RefCell<Option<String>>,
    asked: RefCell<Vec<(String, Vec<u8>, Vec<u8>)>>,
    specified: RefCell<Vec<String>>,
}
impl World {
    fn new() -> World {
        World { rism: RefCell::new(Some(None)), verify: Cell::new(Some(true)), judge: RefCell::new(None), asked: RefCell::new(vec![]), specified: RefCell::new(vec![]) }
    }
    fn answer(&self, a: &str, m: &Binary) -> Option<Binary> {
        if let Ok(ExpectedIsmSpecifierQueryMsg::IsmSpecifier(_)) = from_json::<ExpectedIsmSpecifierQueryMsg>(m) {
            self.specified.borrow_mut().push(a.to_string());
            let r = self.rism.borrow();
            return match &*r {
                None => None,
                Some(x) => some_js(&InterchainSecurityModuleResponse { ism: x.as_ref().map(|y| Addr::unchecked(y.as_str())) }),
            };
        }
        if let Ok(ExpectedIsmQueryMsg::Ism(IsmQueryMsg::Verify { metadata, message })) = from_json::<ExpectedIsmQueryMsg>(m) {
            self.asked.borrow_mut().push((a.to_string(), metadata.to_vec(), message.to_vec()));
            if let Some(j) = &*self.judge.borrow() {
                if !seq(a, j) {
                    return some_js(&VerifyResponse { verified: true });
                }
            }
            return match self.verify.get() {
                None => None,
                Some(v) => some_js(&VerifyResponse { verified: v }),
            };
        }
        if let Ok(ExpectedHookQueryMsg::Hook(_)) = from_json::<ExpectedHookQueryMsg>(m) {
            return some_js(&QuoteDispatchResponse { fees: vec![] });
        }
        None
    }
}
/// account addressed by a 32-byte recipient
fn recipient(hrp: &str, r: &[u8]) -> String {
    if sym::eq(&r[..12], &[0; 12]) {
        bech(hrp, &r[12..])
    } else {
        bech(hrp, r)
    }
}
fn process(s: &mut Store, q: &Q, meta: &[u8], m: &[u8]) -> Option<Response> {
    exec(s, q, &sym::name("relayer", 5), vec![], ExecuteMsg::Process { metadata: meta.to_vec().into(), message: m.to_vec().into() })
}

/// `full`: arbitrary bytes as messages; otherwise well-formed messages with
/// arbitrary nonce and sender.
fn history(k: usize, full: bool) {
    let domain = sym::u32_("domain");
    let mut s = setup(domain);
    configure(&mut s);
    let w = World::new();
    let smart = |a: &str, m: &Binary| w.answer(a, m);
    let q = Q::smart(&smart);
    // two arbitrary messages, possibly equal
    let mk = || {
        if full {
            sym::vec("m", 78)
        } else {
            wire(3, sym::u32_("nonce"), 7, &sym::bytes("sender"), domain, &[9; 32], &[])
        }
    };
    let ms = [mk(), mk()];
    let same = sym::eq(&ms[0], &ms[1]);
    let ids = [keccak(&ms[0]), keccak(&ms[1])];
    let mut done = [false; 2];
    for _ in 0..k {
        match sym::choice("op", if full { 2 } else { 4 }) {
            3 => {
                must(&mut s, ExecuteMsg::SetDefaultIsm { ism: "other".into() });
            }
            2 => {
                let m = DispatchMsg { dest_domain: domain, recipient_addr: vec![1; 32].into(), msg_body: vec![].into(), hook: None, metadata: None };
                let r = exec(&mut s, &q, &bech("osmo", &[3; 20]), vec![], ExecuteMsg::Dispatch(m));
                sym::check(r.is_some(), "dispatching keeps working between deliveries");
            }
            i => {
                w.verify.set(Some(sym::flag("verify")));
                let was = done[i] | (same & done[1 - i]);
                let r = process(&mut s, &q, &sym::vec("meta", 1), &ms[i]);
                if !full {
                    sym::check(r.is_some() == (!was & (w.verify.get() == Some(true))), "a fresh verified message is always delivered");
                }
                if r.is_some() {
                    sym::check(!was, "a message is delivered at most once");
                    sym::check(w.verify.get() == Some(true), "an unverified message is never delivered");
                    done[i] = true;
                    sym::reach("delivered");
                }
            }
        }
        for i in 0..2 {
            let d = delivered(&s, &ids[i]);
            sym::check(d == (done[i] | (same & done[1 - i])), "the delivered query is true exactly for processed messages");
        }
    }
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_m02_hist() {
    history(3, false)
}
#[no_mangle]
pub extern "C-unwind" fn h_m02d_hist() {
    history(4, false)
}
#[no_mangle]
pub extern "C-unwind" fn h_m02d_bytes() {
    history(3, true)
}
/// After one delivery, no metadata, sender, ISM answer or owner action lets
/// the same bytes through again, and an id never delivered is never reported.
#[no_mangle]
pub extern "C-unwind" fn h_m02_any() {
    let domain = sym::u32_("domain");
    let mut s = setup(domain);
    configure(&mut s);
    let w = World::new();
    let smart = |a: &str, m: &Binary| w.answer(a, m);
    let q = Q::smart(&smart);
    let raw: [u8; 32] = sym::bytes("recipient");
    let body = sym::vec("body", [0, 2][sym::choice("bodylen", 2)]);
    let m = wire(3, sym::u32_("nonce"), sym::u32_("origin"), &sym::bytes("sender"), domain, &raw, &body);
    let r = process(&mut s, &q, &sym::vec("meta", 2), &m);
    sym::check(r.is_some(), "a verified message for this domain is delivered");
    if sym::flag("newism") {
        must(&mut s, ExecuteMsg::SetDefaultIsm { ism: "other".into() });
    }
    if sym::flag("rism") {
        *w.rism.borrow_mut() = Some(Some("rism".into()));
    }
    let who = sym::name("relayer", 5);
    let r = exec(&mut s, &q, &who, vec![], ExecuteMsg::Process { metadata: sym::vec("meta", 2).into(), message: m.clone().into() });
    sym::check(r.is_none(), "a delivered message can never be delivered again");
    let x = sym::vec("id", 32);
    sym::check(delivered(&s, &x) == sym::eq(&x, &keccak(&m)), "exactly the delivered id is reported delivered");
    // a different message still goes through
    let mut m2 = m.clone();
    m2[4] ^= 1;
    let r = process(&mut s, &q, &[], &m2);
    sym::check(r.is_some(), "a delivery does not block other messages");
    sym::reach("end");
}

/// Everything that must hold for a message to be handed to its recipient.
#[no_mangle]
pub extern "C-unwind" fn h_m03_auth() {
    let domain = sym::u32_("domain");
    let hrp = ["osmo", "neutron"][sym::choice("hrp", 2)];
    let mut s = setup_hrp(domain, hrp);
    configure(&mut s);
    let w = World::new();
    let smart = |a: &str, m: &Binary| w.answer(a, m);
    let q = Q::smart(&smart);
    let dism = sym::name("dism", 5);
    must(&mut s, ExecuteMsg::SetDefaultIsm { ism: dism.clone() });
    let mut rism = match sym::choice("rism", 4) {
        0 => Some(None),
        1 => Some(Some(sym::name("rism", 5))),
        2 => Some(Some(String::new())),
        _ => None,
    };
    w.verify.set([Some(true), Some(false), None][sym::choice("verify", 3)]);
    let (bl, ml) = [(0, 3), (1, 0), (4, 1), (0, 0)][sym::choice("lengths", 4)];
    let mut m = sym::vec("message", 77 + bl);
    if (bl, ml) == (0, 0) {
        m.extend(long("tail"));
    }
    let meta = sym::vec("meta", ml);
    let version = m[0];
    let dest = u32::from_be_bytes([m[41], m[42], m[43], m[44]]);
    let origin = u32::from_be_bytes([m[5], m[6], m[7], m[8]]);
    let ok = all(&[version == 3, dest == domain, w.verify.get() == Some(true), rism.is_some()]);
    let to = recipient(hrp, &m[45..77]);
    if rism == Some(Some(String::new())) {
        rism = Some(Some(to.clone())); // the recipient judges for itself
    }
    *w.rism.borrow_mut() = rism.clone();
    // any other module would accept
    *w.judge.borrow_mut() = Some(match &rism {
        Some(Some(x)) => x.clone(),
        _ => dism.clone(),
    });
    let by = match bl {
        0 => sym::name("relayer", 5),
        1 => to.clone(),
        _ => env().contract.address.to_string(),
    };
    let r = exec(&mut s, &q, &by, vec![], ExecuteMsg::Process { metadata: meta.clone().into(), message: m.clone().into() });
    sym::check(r.is_some() == ok, "a message is delivered exactly when version, destination and its ISM accept it");
    let id = keccak(&m);
    sym::check(delivered(&s, &id) == ok, "only delivered messages are marked delivered");
    let Some(r) = r else {
        sym::reach("refused");
        return;
    };
    let ism = match rism {
        Some(Some(x)) => x,
        _ => dism,
    };
    {
        let a = w.asked.borrow();
        sym::check(!a.is_empty(), "the ISM is asked");
        for a in a.iter() {
            sym::check(seq(&a.0, &ism), "the ISM asked is the recipient's own, or else the default");
            sym::check(sym::eq(&a.1, &meta), "the ISM sees exactly the submitted metadata");
            sym::check(sym::eq(&a.2, &m), "the ISM sees exactly the submitted message");
        }
        let sp = w.specified.borrow();
        sym::check(!sp.is_empty(), "the recipient chooses its ISM");
        for x in sp.iter() {
            sym::check(seq(x, &to), "the recipient addressed by the message chooses its ISM");
        }
    }
    let l = msgs(&r);
    sym::check(l.len() == 1, "exactly one call results from a delivery");
    let (a, b, f) = wasm_exec(l[0]).unwrap();
    sym::check(seq(a, &to), "the call goes to the recipient in the message");
    sym::check(f.is_empty(), "no funds are moved by a delivery");
    let ExpectedHandleMsg::Handle(h) = from_json(b).unwrap();
    sym::check(h.origin == origin, "the recipient is told the true origin domain");
    sym::check(sym::eq(h.sender.as_slice(), &m[9..41]), "the recipient is told the true sender");
    sym::check(sym::eq(h.body.as_slice(), &m[77..]), "the recipient receives the exact body");
    let ev = evattr(&r, "mailbox_process_id", "message_id");
    sym::check(ev.is_some() && seq(ev.unwrap(), &hexs(&id)), "the process event announces the message id");
    sym::reach("delivered");
}
/// Truncated messages are refused.
#[no_mangle]
pub extern "C-unwind" fn h_m03_short() {
    let mut s = setup(sym::u32_("domain"));
    configure(&mut s);
    let w = World::new();
    let smart = |a: &str, m: &Binary| w.answer(a, m);
    let q = Q::smart(&smart);
    let n = [0, 1, 4, 8, 40, 44, 45, 76][sym::choice("len", 8)];
    let r = process(&mut s, &q, &[], &sym::vec("message", n));
    sym::check(r.is_none(), "a truncated message is refused");
    sym::reach("refused");
}

// -------------------------------------------------------------------- funds

fn coins_of(name: &str, amounts: bool) -> Vec<Coin> {
    let d: &[&str] = match sym::choice(name, if amounts { 5 } else { 4 }) {
        0 => &[],
        1 => &["ua"],
        2 => &["ub"],
        3 => &["ua", "ub"],
        _ => &["uc"],
    };
    d.iter().map(|x| coin_(sym::u128_(name), x)).collect()
}
const D: [&str; 3] = ["ua", "ub", "uc"];

fn funds_case(deep: bool) {
    let mut s = setup(1);
    configure(&mut s);
    let fees = coins_of("fee", deep);
    let smart = |a: &str, m: &Binary| {
        quote_msg(m);
        if a == "ahook" {
            some_js(&QuoteDispatchResponse { fees: fees.clone() })
        } else {
            None
        }
    };
    let q = Q::smart(&smart);
    let funds = coins_of("funds", deep);
    for c in &funds {
        sym::assume(!c.amount.is_zero()); // the chain never attaches zero coins
    }
    let m = DispatchMsg { dest_domain: sym::u32_("dest"), recipient_addr: vec![9; 32].into(), msg_body: sym::vec("body", 1).into(), hook: [None, Some("other".to_string()), Some("ahook".to_string())][sym::choice("hook", 3)].clone(), metadata: if sym::flag("metadata") { Some(sym::vec("metadata", 2).into()) } else { None } };
    let hook = m.hook.clone().unwrap_or("dhook".into());
    let r = exec(&mut s, &q, &bech("osmo", &[1; 20]), funds.clone(), ExecuteMsg::Dispatch(m));
    let mut enough = vec![];
    for d in D {
        enough.push(amt(&funds, d) >= amt(&fees, d));
    }
    sym::check(r.is_some() == all(&enough), "dispatch succeeds exactly when the attached funds cover the required hook");
    let Some(r) = r else {
        sym::reach("short");
        return;
    };
    let l = msgs(&r);
    sym::check(l.len() == 2, "exactly the two hooks are called");
    let (a, _, f1) = wasm_exec(l[0]).unwrap();
    sym::check(seq(a, "ahook"), "the required hook is called first");
    let (a, _, f2) = wasm_exec(l[1]).unwrap();
    sym::check(seq(a, &hook), "then the hook chosen by the sender, or the default");
    sym::check(same_coins(f1, &fees, &D), "the required hook is paid exactly its quote");
    sym::check(all(&[no_dup_denoms(f1), no_dup_denoms(f2)]), "forwarded funds name each denomination once");
    for d in D {
        sym::check(amt(f1, d).checked_add(amt(f2, d)) == Some(amt(&funds, d)), "everything attached is forwarded, nothing is kept or created");
    }
    for c in f2 {
        sym::check(!c.amount.is_zero() & D.iter().any(|d| *d == c.denom), "the remainder is a proper coin list");
    }
    sym::reach("paid");
}
#[no_mangle]
pub extern "C-unwind" fn h_m04_funds() {
    funds_case(false)
}
#[no_mangle]
pub extern "C-unwind" fn h_m04d_funds() {
    funds_case(true)
}

/// `msg`: symbolic message with one fee shape; otherwise symbolic fees
fn quote_case(deep: bool, msg: bool) {
    let domain = sym::u32_("domain");
    let mut s = setup(domain);
    configure(&mut s);
    let rfee = if msg { vec![coin_(3, "ua")] } else { coins_of("rfee", deep) };
    let mut bfee = if msg { vec![coin_(4, "ua")] } else { coins_of("bfee", deep) };
    // default, another one, or the required hook itself
    let hook = [None, Some("other".to_string()), Some("ahook".to_string())][sym::choice("hook", 3)].clone();
    let bhook = hook.clone().unwrap_or("dhook".into());
    if bhook == "ahook" {
        bfee = rfee.clone();
    }
    let seen = RefCell::new(vec![]);
    // a hook may fail
    let broken = Cell::new(if msg { ["", "ahook", "dhook"][sym::choice("broken", 3)] } else { "" });
    let smart = |a: &str, m: &Binary| {
        let m = quote_msg(m);
        if a == broken.get() {
            return None;
        }
        seen.borrow_mut().push((a.to_string(), m.metadata.to_vec(), m.message.to_vec()));
        if a == "ahook" {
            some_js(&QuoteDispatchResponse { fees: rfee.clone() })
        } else if a == bhook {
            some_js(&QuoteDispatchResponse { fees: bfee.clone() })
        } else {
            None
        }
    };
    let q = Q::smart(&smart);
    let raw = if msg { sym::vec("sender", 20) } else { vec![1; 20] };
    let who = bech("osmo", &raw);
    let rec: [u8; 32] = if msg { sym::bytes("recipient") } else { [2; 32] };
    let body = if msg { sym::vec("body", 1) } else { vec![5] };
    let dest = sym::u32_("dest");
    let meta = if msg { sym::vec("meta", 2) } else { vec![8, 9] };
    let dm = DispatchMsg { dest_domain: dest, recipient_addr: rec.to_vec().into(), msg_body: body.clone().into(), hook, metadata: Some(meta.clone().into()) };
    let r: Option<QuoteDispatchResponse> = qry(&s, &q, |d| {
        query(d, env(), QueryMsg::Hook(MailboxHookQueryMsg::QuoteDispatch { sender: who.clone(), msg: dm.clone() }))
    });
    if broken.get() == "ahook" || broken.get() == bhook {
        sym::check(r.is_none(), "there is no quote when a hook gives none");
        if broken.get() == "ahook" {
            let x = exec(&mut s, &q, &who, vec![coin_(1000, "ua")], ExecuteMsg::Dispatch(dm));
            sym::check(x.is_none(), "nothing is dispatched without the required hook's quote");
        }
        sym::reach("no quote");
        return;
    }
    broken.set("");
    let mut fits = vec![];
    for d in D {
        fits.push(amt(&rfee, d).checked_add(amt(&bfee, d)).is_some());
    }
    sym::check(r.is_some() == all(&fits), "a quote exists unless the total is not representable");
    let Some(r) = r else {
        sym::reach("overflow");
        return;
    };
    for d in D {
        sym::check(amt(&r.fees, d) == amt(&rfee, d).wrapping_add(amt(&bfee, d)), "the quote is the required hook's fee plus the chosen hook's fee");
    }
    sym::check(no_dup_denoms(&r.fees), "the quote names each denomination once");
    let w = wire(3, 0, domain, &pad32(&raw), dest, &rec, &body);
    {
        let l = seen.borrow();
        for x in l.iter() {
            sym::check(sym::eq(&x.1, &meta), "hooks are quoted for the caller's metadata");
            sym::check(sym::eq(&x.2, &w), "hooks are quoted for the message that would be dispatched");
        }
    }
    // exactly the quoted funds suffice
    let funds: Vec<Coin> = r.fees.iter().filter(|c| !c.amount.is_zero()).cloned().collect();
    let x = exec(&mut s, &q, &who, funds, ExecuteMsg::Dispatch(dm));
    sym::check(x.is_some(), "dispatching with exactly the quoted funds succeeds");
    let x = x.unwrap();
    let l = msgs(&x);
    let (_, _, f2) = wasm_exec(l[1]).unwrap();
    sym::check(same_coins(f2, &bfee, &D), "the chosen hook receives exactly its own quote");
    sym::reach("dispatched");
}
#[no_mangle]
pub extern "C-unwind" fn h_m05_quote() {
    quote_case(false, false)
}
#[no_mangle]
pub extern "C-unwind" fn h_m05_msg() {
    quote_case(false, true)
}
#[no_mangle]
pub extern "C-unwind" fn h_m05d_quote() {
    quote_case(true, false)
}

/// Configuration queries always reflect the last accepted setting.
fn config(k: usize) {
    let domain = sym::u32_("domain");
    let mut s = setup(domain);
    let q = Q::none();
    let mut cur: [Option<String>; 3] = [None, None, None];
    for _ in 0..k {
        let i = sym::choice("which", 3);
        let a = sym::name("addr", 4);
        let who = sym::name("who", 5);
        let bad = sym::flag("badaddr");
        let x = if bad { format!("!{a}") } else { a.clone() };
        let m = match i {
            0 => ExecuteMsg::SetDefaultIsm { ism: x },
            1 => ExecuteMsg::SetDefaultHook { hook: x },
            _ => ExecuteMsg::SetRequiredHook { hook: x },
        };
        let own = sym::flag("asowner") || who == "owner";
        let r = if own { exec(&mut s, &q, "owner", vec![], m) } else { exec(&mut s, &q, &who, vec![], m) };
        sym::check(r.is_some() == (own & !bad), "only the owner changes the configuration, and only to valid addresses");
        if r.is_some() {
            cur[i] = Some(a);
        }
        let a: Option<DefaultIsmResponse> = mq(&s, &q, MailboxQueryMsg::DefaultIsm {});
        let b: Option<DefaultHookResponse> = mq(&s, &q, MailboxQueryMsg::DefaultHook {});
        let c: Option<RequiredHookResponse> = mq(&s, &q, MailboxQueryMsg::RequiredHook {});
        let got = [a.map(|x| x.default_ism), b.map(|x| x.default_hook), c.map(|x| x.required_hook)];
        for k in 0..3 {
            let same = match (&got[k], &cur[k]) {
                (None, None) => true,
                (Some(x), Some(y)) => seq(x, y),
                _ => false,
            };
            sym::check(same, "queries report exactly the configured address");
        }
        if let Some(dism) = &cur[0] {
            let own = match sym::choice("own ism", 3) {
                0 => None,
                1 => Some("recv".to_string()),
                _ => Some(sym::name("ism", 4)),
            };
            let smart = |a: &str, m: &Binary| {
                sym::check(a == "recv", "the recipient names its ISM");
                from_json::<ExpectedIsmSpecifierQueryMsg>(m).ok()?;
                some_js(&InterchainSecurityModuleResponse { ism: own.clone().map(Addr::unchecked) })
            };
            let r: Option<RecipientIsmResponse> = mq(&s, &Q::smart(&smart), MailboxQueryMsg::RecipientIsm { recipient_addr: "recv".into() });
            sym::check(seq(&r.unwrap().ism, own.as_ref().unwrap_or(dism)), "the ISM of a recipient is its own, or else the default");
        }
        let d: Option<LocalDomainResponse> = mq(&s, &q, MailboxQueryMsg::LocalDomain {});
        sym::check(d.unwrap().local_domain == domain, "the local domain never changes");
        let d: Option<HrpResponse> = mq(&s, &q, MailboxQueryMsg::Hrp {});
        sym::check(seq(&d.unwrap().hrp, "osmo"), "the address prefix never changes");
    }
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_m06_config() {
    config(2)
}
#[no_mangle]
pub extern "C-unwind" fn h_m06d_config() {
    config(3)
}
