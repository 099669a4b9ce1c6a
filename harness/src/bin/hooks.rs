//! Post-dispatch hooks: fee, aggregate, the three routing hooks, pausable.
use cosmwasm_std::*;
use hpl_interface::hook::*;
use hpl_interface::ownable::OwnableMsg;
use hpl_interface::router::*;
use hpl_interface::Order;
use vh::*;

sym::harnesses! {
    h_h01_pay, h_h01_admin, h_h01d_history,
    h_h02_quote, h_h02_dispatch, h_h02_admin, h_h02d_quote, h_h02d_dispatch,
    h_h03_quote, h_h03_dispatch, h_h03_unknown, h_h03d_history,
    h_h04_registry, h_h04_list, h_h04_many, h_h04_fallback, h_h04_routes, h_h04d_registry,
    h_h05_gate, h_h05d_gate,
}

fn same_store(a: &Store, b: &Store) -> bool {
    a.kv.len() == b.kv.len() && a.kv == b.kv
}
fn owner_or(n: &str) -> String {
    if sym::flag("owner") {
        "owner".to_string()
    } else {
        sym::name(n, 5)
    }
}
/// an arbitrary message; returns also its destination and recipient
fn message() -> (HexBinary, u32, [u8; 32]) {
    let (sender, rcpt): ([u8; 32], [u8; 32]) = (sym::bytes("msg sender"), sym::bytes("msg recipient"));
    let dest = sym::u32_("dest");
    let m = wire(sym::u8_("version"), sym::u32_("nonce"), sym::u32_("origin"), &sender, dest, &rcpt, &sym::bytes::<2>("body"));
    (m.into(), dest, rcpt)
}
fn quote_req(b: &Binary) -> Option<QuoteDispatchMsg> {
    match from_json::<ExpectedHookQueryMsg>(b) {
        Ok(ExpectedHookQueryMsg::Hook(HookQueryMsg::QuoteDispatch(q))) => Some(q),
        _ => None,
    }
}
/// the post-dispatch call made by a message
fn post(m: &CosmosMsg) -> Option<(&str, PostDispatchMsg, &Vec<Coin>)> {
    let (to, b, f) = wasm_exec(m)?;
    match from_json::<ExpectedHookMsg>(b) {
        Ok(ExpectedHookMsg::PostDispatch(p)) => Some((to, p, f)),
        _ => None,
    }
}
fn same_call(p: &PostDispatchMsg, md: &HexBinary, msg: &HexBinary) -> bool {
    sym::eq(&p.metadata, md) & sym::eq(&p.message, msg)
}

// ------------------------------------------------------------------ fee hook

mod fee_ {
    pub use hpl_hook_fee::*;
    pub use hpl_interface::hook::fee::*;
}
use fee_::{FeeHookMsg, FeeHookQueryMsg, FeeResponse};
fn fsetup(fee: Coin) -> Store {
    let mut s = Store::new();
    let m = fee_::InstantiateMsg { owner: "owner".into(), fee };
    sym::check(tx(&mut s, &Q::none(), |d| hpl_hook_fee::instantiate(d, env(), info("deployer", vec![]), m)).is_some(), "instantiation succeeds");
    s
}
fn fex(s: &mut Store, q: &Q, who: &str, funds: Vec<Coin>, m: fee_::ExecuteMsg) -> Option<Response> {
    tx(s, q, |d| hpl_hook_fee::execute(d, env(), info(who, funds), m))
}
fn fee_of(s: &Store) -> Coin {
    qry::<_, FeeResponse>(s, &Q::none(), |d| hpl_hook_fee::query(d, env(), fee_::QueryMsg::FeeHook(FeeHookQueryMsg::Fee {}))).unwrap().fee
}
fn fee_quote(s: &Store, md: HexBinary, msg: HexBinary) -> Vec<Coin> {
    let m = fee_::QueryMsg::Hook(HookQueryMsg::QuoteDispatch(QuoteDispatchMsg { metadata: md, message: msg }));
    qry::<_, QuoteDispatchResponse>(s, &Q::none(), |d| hpl_hook_fee::query(d, env(), m)).expect("a quote").fees
}
fn same_coin(a: &Coin, amount: u128, denom: &str) -> bool {
    (a.amount.u128() == amount) & seq(&a.denom, denom)
}
/// A dispatch is accepted exactly when the fee is covered.
#[no_mangle]
pub extern "C-unwind" fn h_h01_pay() {
    let fee = sym::u128_("fee");
    let mut s = fsetup(coin_(1, "uold"));
    let m = fee_::ExecuteMsg::FeeHook(FeeHookMsg::SetFee { fee: coin_(fee, "ufee") });
    sym::check(fex(&mut s, &Q::none(), "owner", vec![], m).is_some(), "the owner sets the fee");
    let (msg, _, _) = message();
    let md = HexBinary::from(sym::vec("metadata", 2));
    let q = fee_quote(&s, md.clone(), msg.clone());
    sym::check(amt(&q, "ufee") == fee && q.len() <= 1 && q.iter().all(|c| c.denom == "ufee"), "the quote is the fee");
    let f = match sym::choice("funds", 5) {
        0 => vec![],
        1 => vec![coin_(sym::u128_("paid"), "ufee")],
        2 => vec![coin_(sym::u128_("paid"), "uold")],
        3 => vec![coin_(sym::u128_("other"), "aother"), coin_(sym::u128_("paid"), "ufee")],
        _ => vec![coin_(sym::u128_("paid"), "ufee"), coin_(sym::u128_("other"), "zother")],
    };
    // coins attached by the chain are never zero
    for c in &f {
        sym::assume(c.amount.u128() > 0);
    }
    let before = s.clone();
    let r = fex(&mut s, &Q::none(), &sym::name("who", 5), f.clone(), fee_::ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: md, message: msg }));
    let alone = f.iter().all(|c| c.denom == "ufee");
    sym::check(r.is_some() == (alone && amt(&f, "ufee") >= fee), "a dispatch is accepted exactly when the fee is paid");
    sym::check(same_store(&before, &s), "dispatches leave the configuration alone");
    match r {
        Some(r) => {
            sym::check(r.messages.is_empty(), "the fee stays with the hook");
            sym::reach("paid");
        }
        None => sym::reach("unpaid"),
    }
}
/// Only the owner sets the fee and claims what was collected.
#[no_mangle]
pub extern "C-unwind" fn h_h01_admin() {
    let mut s = fsetup(coin_(sym::u128_("first"), "ufee"));
    let first = fee_of(&s);
    let who = owner_or("who");
    let claim = sym::flag("claim");
    let (amount, denom) = (sym::u128_("amount"), sym::name("denom", 4));
    let to = match sym::choice("recipient", 4) {
        0 => None,
        1 => Some(sym::name("to", 4)),
        2 => Some("owner".to_string()),
        _ => Some(env().contract.address.to_string()),
    };
    let m = if claim { FeeHookMsg::Claim { recipient: to.clone().map(Addr::unchecked) } } else { FeeHookMsg::SetFee { fee: coin_(amount, &denom) } };
    let (b1, b2) = (sym::u128_("b1"), sym::u128_("b2"));
    let q = Q::none();
    *q.all.borrow_mut() = vec![coin_(b1, "ufee"), coin_(b2, "uold")];
    let before = s.clone();
    let r = fex(&mut s, &q, &who, vec![], fee_::ExecuteMsg::FeeHook(m));
    sym::check(r.is_some() == (who == "owner"), "only the owner sets the fee or claims");
    let Some(r) = r else {
        sym::check(same_store(&before, &s), "a refused call changes nothing");
        sym::reach("refused");
        return;
    };
    if !claim {
        sym::check(r.messages.is_empty(), "setting the fee moves no funds");
        sym::check(same_coin(&fee_of(&s), amount, &denom), "the fee last set is reported");
        sym::reach("set");
        return;
    }
    sym::check(same_store(&before, &s) && fee_of(&s) == first, "claiming leaves the fee alone");
    let m = msgs(&r);
    sym::check(m.len() == 1, "one transfer");
    let (dst, c) = bank_send(m[0]).expect("a bank transfer");
    sym::check(seq(dst, to.as_deref().unwrap_or("owner")), "the named recipient, or the owner, receives");
    sym::check(amt(c, "ufee") == b1 && amt(c, "uold") == b2 && c.len() == 2, "everything collected is paid out");
    sym::reach("claimed");
}
#[no_mangle]
pub extern "C-unwind" fn h_h01d_history() {
    let mut s = fsetup(coin_(7, "ufee"));
    let mut want = (7u128, "ufee".to_string());
    for _ in 0..4 {
        let who = owner_or("who");
        let (amount, denom) = (sym::u128_("amount"), sym::name("denom", 3));
        if fex(&mut s, &Q::none(), &who, vec![], fee_::ExecuteMsg::FeeHook(FeeHookMsg::SetFee { fee: coin_(amount, &denom) })).is_some() {
            want = (amount, denom);
        }
        sym::check(same_coin(&fee_of(&s), want.0, &want.1), "the fee last set is reported");
    }
    let q = fee_quote(&s, vec![].into(), message().0);
    sym::check(amt(&q, &want.1) == want.0, "the quote is the fee last set");
    sym::reach("end");
}

// ------------------------------------------------------------ aggregate hook

use hpl_interface::hook::aggregate as ag;
fn aex(s: &mut Store, q: &Q, who: &str, funds: Vec<Coin>, m: ag::ExecuteMsg) -> Option<Response> {
    tx(s, q, |d| hpl_hook_aggregate::execute(d, env(), info(who, funds), m))
}
fn asetup(hooks: &[&str]) -> Store {
    let mut s = Store::new();
    let m = ag::InstantiateMsg { owner: "owner".into(), hooks: hooks.iter().map(|x| x.to_string()).collect() };
    sym::check(tx(&mut s, &Q::none(), |d| hpl_hook_aggregate::instantiate(d, env(), info("deployer", vec![]), m)).is_some(), "instantiation succeeds");
    s
}
fn hooks_of(s: &Store) -> Vec<String> {
    let m = ag::QueryMsg::AggregateHook(ag::AggregateHookQueryMsg::Hooks {});
    qry::<_, ag::HooksResponse>(s, &Q::none(), |d| hpl_hook_aggregate::query(d, env(), m)).unwrap().hooks
}
const HOOKS: [&str; 4] = ["hook0", "hook1", "hook2", "hook3"];
/// fees of the member hooks: none, one or two coins each
fn member_fees(n: usize, kinds: usize) -> Vec<Option<Vec<Coin>>> {
    (0..n)
        .map(|_| match sym::choice("fees", kinds) {
            0 => Some(vec![coin_(sym::u128_("fa"), "ua")]),
            1 => Some(vec![]),
            2 => None,
            3 => Some(vec![coin_(sym::u128_("fb"), "ub")]),
            _ => Some(vec![coin_(sym::u128_("fb"), "ub"), coin_(sym::u128_("fa"), "ua")]),
        })
        .collect()
}
fn answers<'a>(fees: &'a [Option<Vec<Coin>>], md: &'a HexBinary, msg: &'a HexBinary) -> impl Fn(&str, &Binary) -> Option<Binary> + 'a {
    move |a: &str, b: &Binary| {
        let i = HOOKS.iter().position(|h| *h == a);
        sym::check(i.is_some() && i.unwrap() < fees.len(), "only member hooks are asked");
        let r = quote_req(b);
        sym::check(r.is_some(), "hooks are asked for a quote");
        let r = r.unwrap();
        sym::check(sym::eq(&r.metadata, md) & sym::eq(&r.message, msg), "hooks are asked about the same metadata and message");
        fees[i.unwrap()].as_ref().and_then(|f| some_js(&QuoteDispatchResponse { fees: f.clone() }))
    }
}
fn h02_quote(n: usize, kinds: usize) {
    let s = asetup(&HOOKS[..n]);
    let (msg, _, _) = message();
    let md = HexBinary::from(sym::vec("metadata", 2));
    let fees = member_fees(n, kinds);
    let f = answers(&fees, &md, &msg);
    let q = Q::smart(&f);
    let m = ag::QueryMsg::Hook(HookQueryMsg::QuoteDispatch(QuoteDispatchMsg { metadata: md.clone(), message: msg.clone() }));
    let r = qry::<_, QuoteDispatchResponse>(&s, &q, |d| hpl_hook_aggregate::query(d, env(), m));
    if fees.iter().any(|x| x.is_none()) {
        sym::check(r.is_none(), "no quote when a member hook fails");
        sym::reach("failing");
        return;
    }
    let mut over = false;
    let mut total = |d: &str| {
        let mut t = 0u128;
        for x in fees.iter().flatten() {
            let (a, o) = t.overflowing_add(amt(x, d));
            t = a;
            over |= o;
        }
        t
    };
    let (a, b) = (total("ua"), total("ub"));
    if over {
        sym::check(r.is_none(), "no quote when the sum does not fit");
        sym::reach("overflow");
        return;
    }
    sym::check(r.is_some(), "there is a quote");
    let r = r.unwrap().fees;
    sym::check((amt(&r, "ua") == a) & (amt(&r, "ub") == b), "the quote is the sum of the member hooks' quotes");
    sym::check(no_dup_denoms(&r) && r.iter().all(|c| c.denom == "ua" || c.denom == "ub"), "each denomination once");
    sym::reach("sum");
}
#[no_mangle]
pub extern "C-unwind" fn h_h02_quote() {
    h02_quote(sym::choice("n", 3), 4);
}
#[no_mangle]
pub extern "C-unwind" fn h_h02d_quote() {
    h02_quote(3, 5);
}
fn h02_dispatch(n: usize, kinds: usize) {
    let mut s = asetup(&HOOKS[..n]);
    let (msg, _, _) = message();
    let md = HexBinary::from(sym::vec("metadata", 2));
    let fees = member_fees(n, kinds);
    let f = answers(&fees, &md, &msg);
    let q = Q::smart(&f);
    // exactly the total is attached
    let mut funds = vec![];
    for d in ["ua", "ub"] {
        let t = fees.iter().flatten().fold(Some(0u128), |t, x| t.and_then(|t| t.checked_add(amt(x, d))));
        let Some(t) = t else { return };
        if t > 0 {
            funds.push(coin_(t, d));
        }
    }
    let r = aex(&mut s, &q, &sym::name("who", 5), funds, ag::ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: md.clone(), message: msg.clone() }));
    if fees.iter().any(|x| x.is_none()) {
        sym::check(r.is_none(), "a failing member hook fails the dispatch");
        sym::reach("failing");
        return;
    }
    sym::check(r.is_some(), "a fully paid dispatch is accepted");
    let r = r.unwrap();
    let m = msgs(&r);
    sym::check(m.len() == n, "each member hook is called once");
    for i in 0..n {
        let p = post(m[i]);
        sym::check(p.is_some(), "member hooks are called");
        let (to, p, f) = p.unwrap();
        sym::check(to == HOOKS[i], "member hooks are called in order");
        sym::check(same_call(&p, &md, &msg), "member hooks get the same metadata and message");
        sym::check(same_coins(f, fees[i].as_ref().unwrap(), &["ua", "ub"]), "each member hook is paid exactly its own quote");
    }
    sym::reach("called");
}
#[no_mangle]
pub extern "C-unwind" fn h_h02_dispatch() {
    h02_dispatch(sym::choice("n", 3), 4);
}
#[no_mangle]
pub extern "C-unwind" fn h_h02d_dispatch() {
    h02_dispatch(3, 5);
}
#[no_mangle]
pub extern "C-unwind" fn h_h02_admin() {
    let mut s = asetup(&HOOKS[..2]);
    let mut want: Vec<String> = HOOKS[..2].iter().map(|x| x.to_string()).collect();
    for _ in 0..2 {
        let who = owner_or("who");
        let v: Vec<String> = (0..sym::choice("n", 3)).map(|_| if sym::flag("valid") { sym::name("h", 4) } else { "!h".into() }).collect();
        let ok = who == "owner" && v.iter().all(|x| x != "!h");
        let before = s.clone();
        let r = aex(&mut s, &Q::none(), &who, vec![], ag::ExecuteMsg::SetHooks { hooks: v.clone() });
        sym::check(r.is_some() == ok, "only the owner sets the member hooks, to valid addresses");
        if ok {
            want = v;
            sym::reach("set");
        } else {
            sym::check(same_store(&before, &s), "a refused call changes nothing");
            sym::reach("refused");
        }
        sym::check(hooks_of(&s) == want, "the member hooks last set are reported");
    }
}

// ------------------------------------------------------------- routing hooks

use hpl_interface::hook::{routing as r0, routing_custom as r1, routing_fallback as r2};
use r1::{ClearCustomHookMsg, CustomHookResponse, CustomHooksResponse, CustomRoutingHookQueryMsg, RegisterCustomHookMsg};
/// 0 = routing, 1 = custom routing, 2 = fallback routing
fn rsetup(k: usize) -> Store {
    let mut s = Store::new();
    let o = "owner".to_string();
    let q = Q::none();
    let i = info("deployer", vec![]);
    let ok = match k {
        0 => tx(&mut s, &q, |d| hpl_hook_routing::instantiate(d, env(), i, r0::InstantiateMsg { owner: o })).is_some(),
        1 => tx(&mut s, &q, |d| hpl_hook_routing_custom::instantiate(d, env(), i, r1::InstantiateMsg { owner: o })).is_some(),
        _ => tx(&mut s, &q, |d| hpl_hook_routing_fallback::instantiate(d, env(), i, r2::InstantiateMsg { owner: o })).is_some(),
    };
    sym::check(ok, "instantiation succeeds");
    if k == 2 {
        sym::check(fallback(&mut s, "owner", "hookf"), "the owner sets the fallback");
    }
    s
}
fn fallback(s: &mut Store, who: &str, h: &str) -> bool {
    tx(s, &Q::none(), |d| hpl_hook_routing_fallback::execute(d, env(), info(who, vec![]), r2::ExecuteMsg::SetFallbackHook { hook: h.into() })).is_some()
}
fn rroute(s: &mut Store, k: usize, who: &str, m: RouterMsg<Addr>) -> bool {
    let i = info(who, vec![]);
    let q = Q::none();
    match k {
        0 => tx(s, &q, |d| hpl_hook_routing::execute(d, env(), i, r0::ExecuteMsg::Router(m))).is_some(),
        1 => tx(s, &q, |d| hpl_hook_routing_custom::execute(d, env(), i, r1::ExecuteMsg::Router(m))).is_some(),
        _ => tx(s, &q, |d| hpl_hook_routing_fallback::execute(d, env(), i, r2::ExecuteMsg::Router(m))).is_some(),
    }
}
fn set(domain: u32, hook: Option<&str>) -> DomainRouteSet<Addr> {
    DomainRouteSet { domain, route: hook.map(Addr::unchecked) }
}
fn enroll(s: &mut Store, k: usize, domain: u32, hook: Option<&str>) {
    sym::check(rroute(s, k, "owner", RouterMsg::SetRoute { set: set(domain, hook) }), "the owner sets routes");
}
fn custom(s: &mut Store, who: &str, m: r1::ExecuteMsg) -> bool {
    tx(s, &Q::none(), |d| hpl_hook_routing_custom::execute(d, env(), info(who, vec![]), m)).is_some()
}
fn reg(d: u32, r: &str, h: &str) -> RegisterCustomHookMsg {
    RegisterCustomHookMsg { dest_domain: d, recipient: r.into(), hook: h.into() }
}
fn rpost(s: &mut Store, k: usize, funds: Vec<Coin>, p: PostDispatchMsg) -> Option<Response> {
    let i = info(&sym::name("dispatcher", 5), funds);
    let q = Q::none();
    match k {
        0 => tx(s, &q, |d| hpl_hook_routing::execute(d, env(), i, r0::ExecuteMsg::PostDispatch(p))),
        1 => tx(s, &q, |d| hpl_hook_routing_custom::execute(d, env(), i, r1::ExecuteMsg::PostDispatch(p))),
        _ => tx(s, &q, |d| hpl_hook_routing_fallback::execute(d, env(), i, r2::ExecuteMsg::PostDispatch(p))),
    }
}
fn rquery<T: serde::de::DeserializeOwned>(s: &Store, k: usize, q: &Q, m: HookQueryMsg) -> Option<T> {
    match k {
        0 => qry(s, q, |d| hpl_hook_routing::query(d, env(), r0::QueryMsg::Hook(m))),
        1 => qry(s, q, |d| hpl_hook_routing_custom::query(d, env(), r1::QueryMsg::Hook(m))),
        _ => qry(s, q, |d| hpl_hook_routing_fallback::query(d, env(), r2::QueryMsg::Hook(m))),
    }
}
/// Two routed destinations and, where supported, two custom hooks and a
/// fallback.  Returns the hook responsible for (dest, recipient).
fn scene(k: usize, dest: u32, rcpt: &[u8; 32]) -> (Store, Option<&'static str>) {
    let mut s = rsetup(k);
    let (d1, d2) = (sym::u32_("d1"), sym::u32_("d2"));
    sym::assume(d1 != d2);
    enroll(&mut s, k, d1, Some("hook1"));
    enroll(&mut s, k, d2, Some("hook2"));
    let gone = sym::flag("unset");
    if gone {
        enroll(&mut s, k, d2, None);
    }
    if k == 1 {
        let c: [u8; 32] = sym::bytes("custom");
        let cd = sym::u32_("custom domain");
        // also one that serves a whole domain already
        let hook = ["hookc", "hook1"][sym::choice("custom hook", 2)];
        sym::check(custom(&mut s, "owner", r1::ExecuteMsg::RegisterCustomHook(reg(cd, &hexs(&c), hook))), "the owner registers custom hooks");
        if sym::flag("cleared") {
            let m = ClearCustomHookMsg { dest_domain: cd, recipient: hexs(&c) };
            sym::check(custom(&mut s, "owner", r1::ExecuteMsg::ClearCustomHook(m)), "the owner clears custom hooks");
        } else if (dest == cd) & (*rcpt == c) {
            return (s, Some(hook));
        }
    }
    let r = if dest == d1 {
        Some("hook1")
    } else if dest == d2 && !gone {
        Some("hook2")
    } else if k == 2 {
        Some("hookf")
    } else {
        None
    };
    (s, r)
}
#[no_mangle]
pub extern "C-unwind" fn h_h03_quote() {
    let k = sym::choice("kind", 3);
    let (msg, dest, rcpt) = message();
    let md = HexBinary::from(sym::vec("metadata", 3));
    let (s, want) = scene(k, dest, &rcpt);
    let fees = match sym::choice("fees", 3) {
        0 => None,
        1 => Some(vec![]),
        _ => Some(vec![coin_(sym::u128_("fa"), "ua"), coin_(sym::u128_("fb"), "ub")]),
    };
    let f = |a: &str, b: &Binary| {
        sym::check(want == Some(a), "the hook responsible for the destination is asked");
        let r = quote_req(b);
        sym::check(r.is_some(), "the hook is asked for a quote");
        let r = r.unwrap();
        sym::check(sym::eq(&r.metadata, &md) & sym::eq(&r.message, &msg), "the hook is asked about the same metadata and message");
        fees.as_ref().and_then(|f| some_js(&QuoteDispatchResponse { fees: f.clone() }))
    };
    let q = Q::smart(&f);
    let r: Option<QuoteDispatchResponse> = rquery(&s, k, &q, HookQueryMsg::QuoteDispatch(QuoteDispatchMsg { metadata: md.clone(), message: msg.clone() }));
    sym::check(r.is_some() == (want.is_some() && fees.is_some()), "there is a quote exactly when the responsible hook gives one");
    match r {
        Some(r) => {
            let fees = fees.as_ref().unwrap();
            sym::check(r.fees.len() == fees.len() && same_coins(&r.fees, fees, &["ua", "ub"]), "the quote is that of the responsible hook");
            sym::reach("quote");
        }
        None => sym::reach("no quote"),
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_h03_dispatch() {
    let k = sym::choice("kind", 3);
    let (msg, dest, rcpt) = message();
    let md = HexBinary::from(sym::vec("metadata", 3));
    let (mut s, want) = scene(k, dest, &rcpt);
    let funds = match sym::choice("funds", 3) {
        0 => vec![],
        1 => vec![coin_(sym::u128_("a"), "ua")],
        _ => vec![coin_(sym::u128_("a"), "ua"), coin_(sym::u128_("b"), "ub")],
    };
    let before = s.clone();
    let r = rpost(&mut s, k, funds.clone(), PostDispatchMsg { metadata: md.clone(), message: msg.clone() });
    sym::check(same_store(&before, &s), "dispatches leave the configuration alone");
    sym::check(r.is_some() == want.is_some(), "a dispatch succeeds exactly when some hook is responsible");
    let Some(r) = r else {
        sym::reach("no route");
        return;
    };
    let m = msgs(&r);
    sym::check(m.len() == 1, "one hook is called");
    let p = post(m[0]);
    sym::check(p.is_some(), "the hook is called");
    let (to, p, f) = p.unwrap();
    sym::check(Some(to) == want, "the hook responsible for the destination is called");
    sym::check(same_call(&p, &md, &msg), "the hook gets the same metadata and message");
    sym::check(same_coins(f, &funds, &["ua", "ub"]), "the hook gets all attached funds");
    sym::reach("called");
}
/// malformed messages reach no hook
#[no_mangle]
pub extern "C-unwind" fn h_h03_unknown() {
    let k = sym::choice("kind", 3);
    let mut s = rsetup(k);
    enroll(&mut s, k, 7, Some("hook1"));
    let n = [0, 44, 76][sym::choice("size", 3)];
    let r = rpost(&mut s, k, vec![], PostDispatchMsg { metadata: vec![].into(), message: sym::vec("message", n).into() });
    sym::check(r.is_none(), "a truncated message is refused");
    sym::reach("refused");
}
/// After any history of route changes the latest route counts.
#[no_mangle]
pub extern "C-unwind" fn h_h03d_history() {
    let k = sym::choice("kind", 3);
    let mut s = rsetup(k);
    let (msg, dest, _) = message();
    let mut want: Option<String> = None;
    for _ in 0..3 {
        let d = sym::u32_("domain");
        let h = if sym::flag("set") { Some(sym::name("hook", 4)) } else { None };
        enroll(&mut s, k, d, h.as_deref());
        if d == dest {
            want = h;
        }
    }
    if k == 2 && want.is_none() {
        want = Some("hookf".into());
    }
    let r = rpost(&mut s, k, vec![], PostDispatchMsg { metadata: vec![].into(), message: msg });
    sym::check(r.is_some() == want.is_some(), "a dispatch succeeds exactly when some hook is responsible");
    if let Some(r) = r {
        let m = msgs(&r);
        sym::check(m.len() == 1 && seq(post(m[0]).expect("a call").0, &want.unwrap()), "the hook last set is called");
        sym::reach("called");
    }
}

// ------------------------------------------- registries of the routing hooks

fn cq<T: serde::de::DeserializeOwned>(s: &Store, m: CustomRoutingHookQueryMsg) -> Option<T> {
    qry(s, &Q::none(), |d| hpl_hook_routing_custom::query(d, env(), r1::QueryMsg::CustomRoutingHook(m)))
}
fn hook_of(s: &Store, d: u32, r: &str) -> Option<String> {
    let x: CustomHookResponse = cq(s, CustomRoutingHookQueryMsg::CustomHook { dest_domain: d, recipient: r.into() })?;
    sym::check(x.dest_domain == d && seq(&x.recipient, r), "the answer is for the recipient asked about");
    Some(x.hook)
}
fn hex_upper(b: &[u8]) -> String {
    b.iter().flat_map(|x| [x >> 4, x & 15]).map(|d| b"0123456789ABCDEF"[d as usize] as char).collect()
}
/// A history of registrations and removals of custom hooks.
fn h04_registry(steps: usize) {
    let mut s = rsetup(1);
    let (ad, ar) = (sym::u32_("ask domain"), sym::bytes::<32>("ask recipient"));
    let ahex = hexs(&ar);
    let mut want: Option<String> = None;
    for n in 0..steps {
        let who = owner_or("who");
        let (d, r) = (sym::u32_("domain"), sym::bytes::<32>("recipient"));
        let h = sym::name("hook", 4);
        let (d2, r2) = (sym::u32_("domain 2"), sym::bytes::<32>("recipient 2"));
        let k = sym::choice("op", 7);
        let up = n == 0 && (k == 0 || k == 2) && sym::flag("upper case");
        let rh = if up { hex_upper(&r) } else { hexs(&r) };
        let mut ok = who == "owner";
        let m = match k {
            0 => r1::ExecuteMsg::RegisterCustomHook(reg(d, &rh, &h)),
            1 => r1::ExecuteMsg::RegisterCustomHooks(vec![reg(d, &rh, "hookx"), reg(d2, &hexs(&r2), "hook2"), reg(d, &rh, &h)]),
            2 => r1::ExecuteMsg::ClearCustomHook(ClearCustomHookMsg { dest_domain: d, recipient: rh }),
            3 => r1::ExecuteMsg::ClearCustomHooks(vec![
                ClearCustomHookMsg { dest_domain: d2, recipient: hexs(&r2) },
                ClearCustomHookMsg { dest_domain: d, recipient: rh.clone() },
                ClearCustomHookMsg { dest_domain: d, recipient: rh },
            ]),
            4 => {
                ok = false;
                r1::ExecuteMsg::RegisterCustomHook(reg(d, &rh, "!hook"))
            }
            5 => {
                ok = false;
                r1::ExecuteMsg::RegisterCustomHooks(vec![reg(d, &rh, &h), reg(d2, &hexs(&r2), "!hook")])
            }
            _ => {
                ok = false;
                let l = [0, 40, 62, 66][sym::choice("recipient size", 4)];
                r1::ExecuteMsg::RegisterCustomHook(reg(d, &sym::hex("bad recipient", l), &h))
            }
        };
        let before = s.clone();
        let done = custom(&mut s, &who, m);
        sym::check(done == ok, "only the owner changes custom hooks, with valid hooks and 32-byte recipients");
        if !done {
            sym::check(same_store(&before, &s), "a refused call changes nothing");
            sym::reach("refused");
        } else if (d == ad) & (r == ar) {
            want = if k < 2 { Some(h) } else { None };
            sym::reach("changed");
        } else if (k % 2 == 1) && ((d2 == ad) & (r2 == ar)) {
            want = if k < 2 { Some("hook2".into()) } else { None };
            sym::reach("changed in a batch");
        }
    }
    sym::check(hook_of(&s, ad, &ahex) == want, "the custom hook last registered is reported");
}
#[no_mangle]
pub extern "C-unwind" fn h_h04_registry() {
    h04_registry(2);
}
#[no_mangle]
pub extern "C-unwind" fn h_h04d_registry() {
    h04_registry(3);
}
/// Listing the custom hooks of a destination.
#[no_mangle]
pub extern "C-unwind" fn h_h04_list() {
    let mut s = rsetup(1);
    let rs: Vec<String> = [1u8, 3, 5].iter().map(|x| hexs(&[*x; 32])).collect();
    // a hook may be any account, also one with another role
    let hk = [HOOKS[0], ["owner", "fallback", HOOKS[0]][sym::choice("role", 3)], HOOKS[2]];
    for i in [2usize, 0, 1] {
        custom(&mut s, "owner", r1::ExecuteMsg::RegisterCustomHook(reg(7, &rs[i], hk[i])));
    }
    custom(&mut s, "owner", r1::ExecuteMsg::RegisterCustomHook(reg(8, &rs[1], "other")));
    let off = if sym::flag("from") { Some(sym::bytes::<32>("offset")) } else { None };
    let desc = sym::flag("desc");
    let lim = [None, Some(1), Some(2), Some(30)][sym::choice("limit", 4)];
    let r: Option<CustomHooksResponse> = cq(
        &s,
        CustomRoutingHookQueryMsg::CustomHooks { dest_domain: 7, offset: off.map(|x| hexs(&x)), limit: lim, order: Some(if desc { Order::Desc } else { Order::Asc }) },
    );
    let mut idx = vec![0usize, 1, 2];
    if desc {
        idx.reverse();
    }
    let want: Vec<usize> = idx
        .into_iter()
        .filter(|i| match off {
            None => true,
            Some(o) => {
                let x = [[1u8; 32], [3; 32], [5; 32]][*i];
                if desc {
                    x < o
                } else {
                    x > o
                }
            }
        })
        .take(lim.unwrap_or(10) as usize)
        .collect();
    sym::check(r.is_some(), "there is a listing");
    let r = r.unwrap().custom_hooks;
    sym::check(r.len() == want.len(), "the listing has the registered hooks after the offset");
    for (x, i) in r.iter().zip(want.iter()) {
        sym::check(x.dest_domain == 7 && seq(&x.recipient, &rs[*i]) && seq(&x.hook, hk[*i]), "in order, with their recipients");
    }
    sym::reach("listed");
}
/// A table larger than any page is listed completely, page by page.
#[no_mangle]
pub extern "C-unwind" fn h_h04_many() {
    let mut s = rsetup(1);
    let n = 35u8;
    let v: Vec<_> = (0..n).map(|i| reg(7, &hexs(&[i + 1; 32]), HOOKS[i as usize % 3])).collect();
    sym::check(custom(&mut s, "owner", r1::ExecuteMsg::RegisterCustomHooks(v)), "all are registered");
    let lim = [None, Some(7), Some(30)][sym::choice("limit", 3)];
    let desc = sym::flag("desc");
    let mut from: Option<String> = None;
    let mut got: Vec<u8> = vec![];
    for _ in 0..10 {
        let r: Option<CustomHooksResponse> = cq(
            &s,
            CustomRoutingHookQueryMsg::CustomHooks { dest_domain: 7, offset: from.clone(), limit: lim, order: Some(if desc { Order::Desc } else { Order::Asc }) },
        );
        let r = r.expect("a listing").custom_hooks;
        let Some(l) = r.last() else { break };
        from = Some(l.recipient.clone());
        for x in &r {
            let i = HexBinary::from_hex(&x.recipient).unwrap()[0];
            sym::check(x.recipient == hexs(&[i; 32]) && x.hook == HOOKS[(i as usize - 1) % 3], "each with its hook");
            got.push(i);
        }
    }
    let mut want: Vec<u8> = (1..=n).collect();
    if desc {
        want.reverse();
    }
    sym::check(got == want, "every registered hook is listed once, in order");
    sym::reach("all listed");
}
#[no_mangle]
pub extern "C-unwind" fn h_h04_fallback() {
    let mut s = rsetup(2);
    let mut want = "hookf".to_string();
    for _ in 0..2 {
        let who = owner_or("who");
        let h = if sym::flag("valid") { sym::name("hook", 4) } else { "!hook".to_string() };
        let ok = who == "owner" && h != "!hook";
        let before = s.clone();
        sym::check(fallback(&mut s, &who, &h) == ok, "only the owner sets the fallback, to a valid address");
        if ok {
            want = h;
        } else {
            sym::check(same_store(&before, &s), "a refused call changes nothing");
            sym::reach("refused");
        }
    }
    let r = rpost(&mut s, 2, vec![], PostDispatchMsg { metadata: vec![].into(), message: message().0 }).expect("a dispatch");
    sym::check(seq(post(msgs(&r)[0]).expect("a call").0, &want), "the fallback last set is used");
    sym::reach("used");
}
/// Route changes by anybody but the owner are refused.
#[no_mangle]
pub extern "C-unwind" fn h_h04_routes() {
    let k = sym::choice("kind", 3);
    let mut s = rsetup(k);
    enroll(&mut s, k, 7, Some("hook1"));
    let who = owner_or("who");
    let d = sym::u32_("domain");
    let ask = sym::u32_("asked");
    let mut want = if ask == 7 { Some("hook1") } else { None };
    let sets = match sym::choice("what", 5) {
        0 => vec![(d, Some("hook2"))],
        1 => vec![(d, None)],
        2 => vec![(d, Some("hook2")), (9, None)],
        3 => vec![(d, None), (9, Some("hook3")), (d, Some("hook2"))],
        _ => vec![(9, Some("hook3")), (d, Some("hook2")), (d, None)],
    };
    let one = sets.len() == 1 && sym::flag("single");
    let mut list: Vec<_> = sets.iter().map(|(d, h)| set(*d, *h)).collect();
    let m = if one { RouterMsg::SetRoute { set: list.remove(0) } } else { RouterMsg::SetRoutes { set: list } };
    let before = s.clone();
    let ok = rroute(&mut s, k, &who, m);
    sym::check(ok == (who == "owner"), "only the owner changes routes");
    if !ok {
        sym::check(same_store(&before, &s), "a refused call changes nothing");
        sym::reach("refused");
    } else {
        for (d, h) in sets {
            if ask == d {
                want = h;
            }
        }
        sym::reach("changed");
    }
    let r = route_of(&s, k, ask);
    sym::check(r.domain == ask, "the answer is for the domain asked about");
    sym::check(r.route.as_ref().map(|x| x.as_str()) == want, "the route last set is reported");
}
fn route_of(s: &Store, k: usize, domain: u32) -> DomainRouteSet<Addr> {
    let q = Q::none();
    let m = RouterQuery::GetRoute { domain };
    let r: RouteResponse<Addr> = match k {
        0 => qry(s, &q, |d| hpl_hook_routing::query(d, env(), r0::QueryMsg::Router(m))),
        1 => qry(s, &q, |d| hpl_hook_routing_custom::query(d, env(), r1::QueryMsg::Router(m))),
        _ => qry(s, &q, |d| hpl_hook_routing_fallback::query(d, env(), r2::QueryMsg::Router(m))),
    }
    .expect("an answer");
    r.route
}

// ------------------------------------------------------------- pausable hook

use hpl_interface::hook::pausable as pa;
use hpl_interface::pausable::{PausableMsg, PausableQueryMsg, PauseInfoResponse};
fn h05(steps: usize) {
    let mut s = Store::new();
    let mut paused = sym::flag("initially paused");
    let m = pa::InstantiateMsg { owner: "owner".into(), paused };
    sym::check(tx(&mut s, &Q::none(), |d| hpl_hook_pausable::instantiate(d, env(), info("deployer", vec![]), m)).is_some(), "instantiation succeeds");
    let run = |s: &mut Store, who: &str, m: pa::ExecuteMsg| tx(s, &Q::none(), |d| hpl_hook_pausable::execute(d, env(), info(who, vec![]), m));
    if sym::flag("offered") {
        let m = OwnableMsg::InitOwnershipTransfer { next_owner: "other".into() };
        sym::check(run(&mut s, "owner", pa::ExecuteMsg::Ownable(m)).is_some(), "the owner offers the ownership");
    }
    for _ in 0..steps {
        let who = owner_or("who");
        let pause = sym::flag("pause");
        let before = s.clone();
        let r = run(&mut s, &who, pa::ExecuteMsg::Pausable(if pause { PausableMsg::Pause {} } else { PausableMsg::Release {} }));
        if who != "owner" {
            sym::check(r.is_none(), "only the owner pauses and releases");
        } else if pause != paused {
            sym::check(r.is_some(), "the owner can pause and release");
        }
        if r.is_some() {
            paused = pause;
        } else {
            sym::check(same_store(&before, &s), "a refused call changes nothing");
        }
        let (msg, _, _) = message();
        let md = HexBinary::from(sym::vec("metadata", 1));
        let i: PauseInfoResponse = qry(&s, &Q::none(), |d| hpl_hook_pausable::query(d, env(), pa::QueryMsg::Pausable(PausableQueryMsg::PauseInfo {}))).unwrap();
        sym::check(i.paused == paused, "the pause state is reported");
        let q: QuoteDispatchResponse = qry(&s, &Q::none(), |d| {
            hpl_hook_pausable::query(d, env(), pa::QueryMsg::Hook(HookQueryMsg::QuoteDispatch(QuoteDispatchMsg { metadata: md.clone(), message: msg.clone() })))
        })
        .expect("a quote");
        sym::check(q.fees.iter().all(|c| c.amount.is_zero()), "the hook asks for no fee");
        let r = run(&mut s, &sym::name("caller", 5), pa::ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: md, message: msg }));
        sym::check(r.is_some() != paused, "dispatches pass exactly while not paused");
        if let Some(r) = r {
            sym::check(r.messages.is_empty(), "the hook does nothing else");
            sym::reach("passed");
        } else {
            sym::reach("blocked");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_h05_gate() {
    h05(2);
}
#[no_mangle]
pub extern "C-unwind" fn h_h05d_gate() {
    h05(4);
}
