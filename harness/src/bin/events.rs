//! The events that relayers, validators, indexers and explorers follow.
use cosmwasm_std::*;
use hpl_interface::core::mailbox::{self as mb, DispatchMsg, LatestDispatchedIdResponse};
use hpl_interface::connection::ConnectionMsg;
use hpl_interface::core::{va, HandleMsg};
use hpl_interface::hook::*;
use hpl_interface::igp::core as ic;
use hpl_interface::igp::oracle::GetExchangeRateAndGasPriceResponse;
use hpl_interface::ism::*;
use hpl_interface::router::*;
use hpl_interface::types::MerkleTree;
use hpl_interface::warp::{cw20 as c, native as n, TokenModeMsg};
use vh::*;

sym::harnesses! {
    h_a01_dispatch, h_a01_process, h_a01_tree, h_a01_gas, h_a01_claim, h_a01_announce, h_a01_send, h_a01_receive,
}

/// the event `ty` occurs once, and its attribute `key` occurs once with `want`
fn says(r: &Response, ty: &str, key: &str, want: &str) {
    says_(r, ty, key, |v| seq(v, want))
}
fn says_(r: &Response, ty: &str, key: &str, right: impl Fn(&str) -> bool) {
    let (mut ne, mut na, mut ok) = (0, 0, false);
    for e in &r.events {
        if e.ty == ty {
            ne += 1;
            for a in &e.attributes {
                if a.key == key {
                    na += 1;
                    ok = right(&a.value);
                }
            }
        }
    }
    sym::check(ne == 1, "the event is emitted exactly once");
    sym::check(na == 1, "the event has the attribute once");
    sym::check(ok, "the event states what happened");
}
const SCALE: u128 = 10_000_000_000;

fn mailbox(s: &mut Store, domain: u32) {
    let m = mb::InstantiateMsg { hrp: "osmo".into(), owner: "owner".into(), domain };
    sym::check(tx(s, &Q::none(), |d| hpl_mailbox::contract::instantiate(d, env(), info("deployer", vec![]), m)).is_some(), "instantiation succeeds");
    for m in [
        mb::ExecuteMsg::SetDefaultHook { hook: "dhook".into() },
        mb::ExecuteMsg::SetRequiredHook { hook: "ahook".into() },
        mb::ExecuteMsg::SetDefaultIsm { ism: "dism".into() },
    ] {
        sym::check(tx(s, &Q::none(), |d| hpl_mailbox::contract::execute(d, env(), info("owner", vec![]), m)).is_some(), "the owner configures the mailbox");
    }
}
fn ids(r: &Response, m: &[u8]) {
    says(r, "mailbox_dispatch_id", "message_id", &hexs(&keccak(m)));
    let e = "mailbox_dispatch";
    says(r, e, "sender", &hexs(&m[9..41]));
    says(r, e, "destination", &u32::from_be_bytes([m[41], m[42], m[43], m[44]]).to_string());
    says(r, e, "recipient", &hexs(&m[45..77]));
    says(r, e, "message", &hexs(m));
}
#[no_mangle]
pub extern "C-unwind" fn h_a01_dispatch() {
    let (origin, dest) = (sym::u32_("origin"), sym::u32_("dest"));
    let mut s = Store::new();
    mailbox(&mut s, origin);
    let f = |_: &str, _: &Binary| some_js(&QuoteDispatchResponse { fees: vec![] });
    let q = Q::smart(&f);
    let raw = sym::vec("sender", if sym::flag("contract") { 32 } else { 20 });
    let who = bech("osmo", &raw);
    let rcpt: [u8; 32] = sym::bytes("recipient");
    for i in 0..2u32 {
        let body = if i == 0 { sym::vec("body", [0, 1, 31, 2000][sym::choice("len", 4)]) } else { sym::vec("body", 3) };
        let m = DispatchMsg { dest_domain: dest, recipient_addr: rcpt.to_vec().into(), msg_body: body.clone().into(), hook: None, metadata: None };
        let r = tx(&mut s, &q, |d| hpl_mailbox::contract::execute(d, env(), info(&who, vec![]), mb::ExecuteMsg::Dispatch(m)));
        ids(&r.expect("a dispatch"), &wire(3, i, origin, &pad32(&raw), dest, &rcpt, &body));
    }
    sym::reach("dispatched");
}
#[no_mangle]
pub extern "C-unwind" fn h_a01_process() {
    let domain = sym::u32_("domain");
    let mut s = Store::new();
    mailbox(&mut s, domain);
    let f = |_: &str, b: &Binary| match from_json::<ExpectedIsmSpecifierQueryMsg>(b) {
        Ok(_) => some_js(&InterchainSecurityModuleResponse { ism: None }),
        _ => some_js(&VerifyResponse { verified: true }),
    };
    let q = Q::smart(&f);
    let (origin, sender, rcpt) = (sym::u32_("origin"), sym::bytes("sender"), sym::bytes("recipient"));
    let m = wire(3, sym::u32_("nonce"), origin, &sender, domain, &rcpt, &sym::vec("body", 2));
    let x = mb::ExecuteMsg::Process { metadata: vec![].into(), message: m.clone().into() };
    let r = tx(&mut s, &q, |d| hpl_mailbox::contract::execute(d, env(), info("relayer", vec![]), x)).expect("a delivery");
    says(&r, "mailbox_process_id", "message_id", &hexs(&keccak(&m)));
    let e = "mailbox_process";
    says(&r, e, "origin", &origin.to_string());
    says(&r, e, "sender", &hexs(&sender));
    says(&r, e, "recipient", &hexs(&rcpt));
    sym::reach("delivered");
}
fn any_msg(dest: u32) -> Vec<u8> {
    wire(3, sym::u32_("nonce"), sym::u32_("origin"), &sym::bytes("sender"), dest, &sym::bytes("recipient"), &sym::vec("body", 3))
}
#[no_mangle]
pub extern "C-unwind" fn h_a01_tree() {
    let mut s = Store::new();
    let m = merkle::InstantiateMsg { mailbox: "mailbox".into() };
    sym::check(tx(&mut s, &Q::none(), |d| hpl_hook_merkle::instantiate(d, env(), info("deployer", vec![]), m)).is_some(), "instantiation succeeds");
    let n = [0, 3, 255, 65535, u32::MAX - 3][sym::choice("size", 5)];
    // the state the hook has after n leaves
    let Some(x) = s.kv.iter_mut().find(|(_, v)| from_json::<MerkleTree>(v).is_ok()) else { return };
    x.1 = to_json_vec(&MerkleTree { branch: MerkleTree::default().branch, count: n as u128 }).unwrap();
    for i in n..n + 3 {
        let m = any_msg(sym::u32_("dest"));
        let id = keccak(&m);
        let f = |_: &str, _: &Binary| some_js(&LatestDispatchedIdResponse { message_id: id.clone().into() });
        let q = Q::smart(&f);
        let x = merkle::ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: vec![].into(), message: m.into() });
        let r = tx(&mut s, &q, |d| hpl_hook_merkle::execute(d, env(), info("mailbox", vec![]), x)).expect("an insertion");
        says(&r, "hpl_hook_merkle::post_dispatch", "message_id", &hexs(&id));
        says(&r, "hpl_hook_merkle::post_dispatch", "index", &i.to_string());
        says(&r, "hpl_hook_merkle::inserted_into_tree", "index", &i.to_string());
    }
    sym::reach("inserted");
}
fn paymaster(s: &mut Store, dest: u32) {
    let m = ic::InstantiateMsg { hrp: "osmo".into(), owner: "owner".into(), gas_token: "ugas".into(), beneficiary: "bene".into(), default_gas_usage: 5 };
    sym::check(tx(s, &Q::none(), |d| hpl_igp::contract::instantiate(d, env(), info("deployer", vec![]), m)).is_some(), "instantiation succeeds");
    let m = ic::ExecuteMsg::Router(RouterMsg::SetRoute { set: DomainRouteSet { domain: dest, route: Some(Addr::unchecked("oracle")) } });
    sym::check(tx(s, &Q::none(), |d| hpl_igp::contract::execute(d, env(), info("owner", vec![]), m)).is_some(), "the owner configures the paymaster");
}
/// gas payments, directly and for a dispatch: who paid how much for which
/// message, how much gas that buys, and what was given back
#[no_mangle]
pub extern "C-unwind" fn h_a01_gas() {
    let dest = sym::u32_("dest");
    let mut s = Store::new();
    paymaster(&mut s, dest);
    let price = 3u128;
    let f = |_: &str, _: &Binary| some_js(&GetExchangeRateAndGasPriceResponse { gas_price: price.into(), exchange_rate: SCALE.into() });
    let q = Q::smart(&f);
    let m = any_msg(dest);
    let (id, gas, x) = match sym::choice("kind", 3) {
        0 => {
            let (id, g) = (sym::vec("id", 32), sym::u8_("gas"));
            let x = ic::ExecuteMsg::PayForGas { message_id: id.clone().into(), dest_domain: dest, gas_amount: Uint256::from(g), refund_address: "refund".into() };
            (id, g as u128, x)
        }
        1 => (keccak(&m), 5, ic::ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: vec![].into(), message: m.clone().into() })),
        _ => {
            let g = sym::u8_("gas");
            let mut md = vec![0u8; 32];
            md[31] = g;
            (keccak(&m), g as u128, ic::ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: md.into(), message: m.clone().into() }))
        }
    };
    let need = gas * price;
    let paid = sym::u8_("paid") as u128 * 4;
    sym::assume(paid >= need);
    let funds = if paid > 0 { vec![coin_(paid, "ugas")] } else { vec![] };
    let who = sym::name("payer", 5);
    let r = tx(&mut s, &q, |d| hpl_igp::contract::execute(d, env(), info(&who, funds), x)).expect("a payment");
    let e = "igp-core-pay-for-gas";
    says(&r, e, "sender", &who);
    says(&r, e, "dest_domain", &dest.to_string());
    says(&r, e, "message_id", &hexs(&id));
    if paid == 0 {
        for k in ["gas_amount", "gas_refunded", "gas_required", "payment"] {
            says_(&r, e, k, |v| v.parse::<u128>() == Ok(0));
        }
        sym::reach("nothing owed");
        return;
    }
    says(&r, e, "gas_amount", &gas.to_string());
    says(&r, e, "gas_refunded", &(paid - need).to_string());
    says(&r, e, "gas_required", &need.to_string());
    says(&r, e, "payment", &paid.to_string());
    sym::reach("paid");
}
#[no_mangle]
pub extern "C-unwind" fn h_a01_claim() {
    let mut s = Store::new();
    paymaster(&mut s, 7);
    let have = sym::u128_("balance");
    let f = |_: &str, d: &str| if d == "ugas" { have } else { 1 };
    let none = |_: &str, _: &Binary| None;
    let q = Q::both(&none, &f);
    let r = tx(&mut s, &q, |d| hpl_igp::contract::execute(d, env(), info("bene", vec![]), ic::ExecuteMsg::Claim {})).expect("a claim");
    says(&r, "igp-core-claim", "beneficiary", "bene");
    says(&r, "igp-core-claim", "collected", &format!("{have}ugas"));
    sym::reach("claimed");
}
#[no_mangle]
pub extern "C-unwind" fn h_a01_announce() {
    let (domain, raw) = (sym::u32_("domain"), sym::vec("mailbox", 20));
    let mut s = Store::new();
    let f = |_: &str, _: &Binary| some_js(&mb::LocalDomainResponse { local_domain: domain });
    let q = Q::smart(&f);
    let m = va::InstantiateMsg { hrp: "osmo".into(), mailbox: bech("osmo", &raw) };
    let r = tx(&mut s, &q, |d| hpl_validator_announce::contract::instantiate(d, env(), info("deployer", vec![]), m)).expect("instantiation");
    says(&r, "init-validator-announce", "local-domain", &domain.to_string());
    let (v, loc) = (sym::vec("validator", 20), sym::text("location", 6));
    let mut sig = sym::vec("sig", 64);
    sig.push(27 + sym::choice("recid", 2) as u8);
    let x = va::ExecuteMsg::Announce { validator: v.clone().into(), storage_location: loc.clone(), signature: sig.into() };
    let who = sym::name("sender", 5);
    let Some(r) = tx(&mut s, &Q::none(), |d| hpl_validator_announce::contract::execute(d, env(), info(&who, vec![]), x)) else { return };
    says(&r, "validator-announcement", "sender", &who);
    says(&r, "validator-announcement", "validator", &hexs(&v));
    says(&r, "validator-announcement", "storage-location", &loc);
    sym::reach("announced");
}

const TOKEN: [&str; 2] = ["utok", "oldcw20"];
const EV: [&str; 2] = ["hpl_warp_native", "hpl_warp_cw20"];
fn route(s: &mut Store, cw20: bool, dest: u32, router: &[u8; 32]) {
    let set = DomainRouteSet { domain: dest, route: Some(HexBinary::from(router)) };
    let ok = if cw20 {
        let m = c::InstantiateMsg { token: TokenModeMsg::Collateral(c::Cw20ModeCollateral { address: TOKEN[1].into() }), hrp: "osmo".into(), owner: "owner".into(), mailbox: "mailbox".into() };
        tx(s, &Q::none(), |d| hpl_warp_cw20::contract::instantiate(d, env(), info("deployer", vec![]), m)).is_some()
            && tx(s, &Q::none(), |d| hpl_warp_cw20::contract::execute(d, env(), info("owner", vec![]), c::ExecuteMsg::Router(RouterMsg::SetRoute { set }))).is_some()
    } else {
        let m = n::InstantiateMsg { token: TokenModeMsg::Collateral(n::NativeModeCollateral { denom: TOKEN[0].into() }), hrp: "osmo".into(), owner: "owner".into(), mailbox: "mailbox".into() };
        tx(s, &Q::none(), |d| hpl_warp_native::contract::instantiate(d, env(), info("deployer", vec![]), m)).is_some()
            && tx(s, &Q::none(), |d| hpl_warp_native::contract::execute(d, env(), info("owner", vec![]), n::ExecuteMsg::Router(RouterMsg::SetRoute { set }))).is_some()
    };
    sym::check(ok, "the owner sets up the route");
}
#[no_mangle]
pub extern "C-unwind" fn h_a01_send() {
    let cw20 = sym::flag("cw20");
    let (dest, router) = (sym::u32_("dest"), sym::bytes("router"));
    let mut s = Store::new();
    route(&mut s, cw20, dest, &router);
    let (recipient, amount) = (sym::vec("recipient", 32), sym::u128_("amount"));
    sym::assume(amount > 0);
    let hook = if sym::flag("hook") { Some(sym::name("hook", 4)) } else { None };
    let metadata: Option<HexBinary> = if sym::flag("metadata") { Some(sym::vec("metadata", 2).into()) } else { None };
    if sym::flag("configured hook") {
        let m = ConnectionMsg::SetHook { hook: "conf".into() };
        let ok = if cw20 {
            tx(&mut s, &Q::none(), |d| hpl_warp_cw20::contract::execute(d, env(), info("owner", vec![]), c::ExecuteMsg::Connection(m))).is_some()
        } else {
            tx(&mut s, &Q::none(), |d| hpl_warp_native::contract::execute(d, env(), info("owner", vec![]), n::ExecuteMsg::Connection(m))).is_some()
        };
        sym::check(ok, "the owner sets the hook");
    }
    let who = sym::name("sender", 5);
    let (rc, am, h, md) = (HexBinary::from(recipient.clone()), Uint128::new(amount), hook.clone(), metadata.clone());
    let r = if cw20 {
        let x = c::ExecuteMsg::TransferRemote { dest_domain: dest, recipient: rc, amount: am, hook: h, metadata: md };
        tx(&mut s, &Q::none(), |d| hpl_warp_cw20::contract::execute(d, env(), info(&who, vec![]), x))
    } else {
        let x = n::ExecuteMsg::TransferRemote { dest_domain: dest, recipient: rc, amount: am, hook: h, metadata: md };
        tx(&mut s, &Q::none(), |d| hpl_warp_native::contract::execute(d, env(), info(&who, vec![coin_(amount, TOKEN[0])]), x))
    };
    let r = r.expect("a transfer");
    let e = format!("{}::transfer-remote", EV[cw20 as usize]);
    says(&r, &e, "sender", &who);
    says(&r, &e, "recipient", &hexs(&recipient));
    says(&r, &e, "token", TOKEN[cw20 as usize]);
    says(&r, &e, "amount", &amount.to_string());
    says(&r, &e, "hook", hook.as_deref().unwrap_or(""));
    says(&r, &e, "metadata", &metadata.map(|m| hexs(&m)).unwrap_or_default());
    if cw20 {
        says(&r, &e, "dest_domain", &dest.to_string());
    }
    sym::reach("sent");
}
#[no_mangle]
pub extern "C-unwind" fn h_a01_receive() {
    let cw20 = sym::flag("cw20");
    let (origin, router) = (sym::u32_("origin"), sym::bytes::<32>("router"));
    let mut s = Store::new();
    route(&mut s, cw20, origin, &router);
    let (recipient, amount) = (sym::vec("recipient", 32), sym::u128_("amount"));
    sym::assume(amount > 0);
    let mut body = recipient.clone();
    body.extend_from_slice(&pad32(&amount.to_be_bytes()));
    let h = HandleMsg { origin, sender: router.to_vec().into(), body: body.into() };
    let r = if cw20 {
        tx(&mut s, &Q::none(), |d| hpl_warp_cw20::contract::execute(d, env(), info("mailbox", vec![]), c::ExecuteMsg::Handle(h)))
    } else {
        tx(&mut s, &Q::none(), |d| hpl_warp_native::contract::execute(d, env(), info("mailbox", vec![]), n::ExecuteMsg::Handle(h)))
    };
    let r = r.expect("a payout");
    let e = format!("{}::handle", EV[cw20 as usize]);
    let z = recipient[..12].iter().fold(0u8, |a, b| a | *b) == 0;
    says(&r, &e, "recipient", &bech("osmo", if z { &recipient[12..] } else { &recipient }));
    says(&r, &e, "token", TOKEN[cw20 as usize]);
    says(&r, &e, "amount", &amount.to_string());
    sym::reach("paid out");
}
