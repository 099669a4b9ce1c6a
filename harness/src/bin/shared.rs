//! What every contract shares: two-step ownership, owner-only administration,
//! listings, and migration.
use cosmwasm_std::*;
use hpl_interface::connection::ConnectionMsg;
use hpl_interface::ownable::*;
use hpl_interface::router::*;
use hpl_interface::warp::TokenModeMsg;
use hpl_interface::{pausable, Order};
use vh::*;

sym::harnesses! {
    h_s01_history, h_s01_invalid, h_s01_fresh, h_s01d_history,
    h_s02_admin, h_s02_handover, h_s02_role,
    h_s03_routes, h_s03_sparse, h_s03_all, h_s03_custom, h_s03d_routes, h_s03d_custom,
    h_s04_migrate, h_s04_rule, h_s04_foreign,
}

mod mailbox {
    pub use hpl_interface::core::mailbox::*;
    pub use hpl_mailbox::contract::*;
}
mod va {
    pub use hpl_interface::core::va::*;
    pub use hpl_validator_announce::contract::*;
}
mod multisig {
    pub use hpl_interface::ism::multisig::*;
    pub use hpl_ism_multisig::contract::*;
}
mod ism_agg {
    pub use hpl_interface::ism::aggregate::*;
    pub use hpl_ism_aggregate::*;
}
mod ism_routing {
    pub use hpl_interface::ism::routing::*;
    pub use hpl_ism_routing::contract::*;
}
mod ism_pause {
    pub use hpl_interface::ism::pausable::*;
    pub use hpl_ism_pausable::*;
}
mod hook_agg {
    pub use hpl_hook_aggregate::*;
    pub use hpl_interface::hook::aggregate::*;
}
mod hook_fee {
    pub use hpl_hook_fee::*;
    pub use hpl_interface::hook::fee::*;
}
mod hook_merkle {
    pub use hpl_hook_merkle::*;
    pub use hpl_interface::hook::merkle::*;
}
mod hook_pause {
    pub use hpl_hook_pausable::*;
    pub use hpl_interface::hook::pausable::*;
}
mod hook_routing {
    pub use hpl_hook_routing::*;
    pub use hpl_interface::hook::routing::*;
}
mod hook_custom {
    pub use hpl_hook_routing_custom::*;
    pub use hpl_interface::hook::routing_custom::*;
}
mod hook_fallback {
    pub use hpl_hook_routing_fallback::*;
    pub use hpl_interface::hook::routing_fallback::*;
}
mod igp {
    pub use hpl_igp::contract::*;
    pub use hpl_interface::igp::core::*;
}
mod oracle {
    pub use hpl_igp_oracle::contract::*;
    pub use hpl_interface::igp::oracle::*;
}
mod wcw20 {
    pub use hpl_interface::warp::cw20::*;
    pub use hpl_warp_cw20::contract::*;
}
mod wnative {
    pub use hpl_interface::warp::native::*;
    pub use hpl_warp_native::contract::*;
}

/// contracts with an owner; two more (merkle hook, validator announce) have none
const OWNED: usize = 15;
const ALL: usize = 17;

fn inst(s: &mut Store, k: usize, owner: &str) -> Option<Response> {
    macro_rules! go {
        ($m:ident, $x:expr) => {
            tx(s, &Q::none(), |d| $m::instantiate(d, env(), info("deployer", vec![]), $x).map_err(|_| ()))
        };
    }
    let owner = owner.to_string();
    match k {
        0 => go!(mailbox, mailbox::InstantiateMsg { hrp: "osmo".into(), owner, domain: 26657 }),
        1 => go!(multisig, multisig::InstantiateMsg { owner }),
        2 => go!(ism_agg, ism_agg::InstantiateMsg { owner, isms: vec!["ismone".into()], threshold: 1 }),
        3 => go!(ism_routing, ism_routing::InstantiateMsg { owner, isms: vec![] }),
        4 => go!(ism_pause, ism_pause::InstantiateMsg { owner, paused: false }),
        5 => go!(hook_agg, hook_agg::InstantiateMsg { owner, hooks: vec!["hookone".into()] }),
        6 => go!(hook_fee, hook_fee::InstantiateMsg { owner, fee: coin(5, "utok") }),
        7 => go!(hook_pause, hook_pause::InstantiateMsg { owner, paused: false }),
        8 => go!(hook_routing, hook_routing::InstantiateMsg { owner }),
        9 => go!(hook_custom, hook_custom::InstantiateMsg { owner }),
        10 => go!(hook_fallback, hook_fallback::InstantiateMsg { owner }),
        11 => go!(
            igp,
            igp::InstantiateMsg { hrp: "osmo".into(), owner, gas_token: "utok".into(), beneficiary: "benef".into(), default_gas_usage: 7 }
        ),
        12 => go!(oracle, oracle::InstantiateMsg { owner }),
        13 => go!(
            wcw20,
            wcw20::InstantiateMsg { token: TokenModeMsg::Collateral(wcw20::Cw20ModeCollateral { address: "token".into() }), hrp: "osmo".into(), owner, mailbox: "mailbox".into() }
        ),
        14 => go!(
            wnative,
            wnative::InstantiateMsg { token: TokenModeMsg::Collateral(wnative::NativeModeCollateral { denom: "utok".into() }), hrp: "osmo".into(), owner, mailbox: "mailbox".into() }
        ),
        15 => go!(hook_merkle, hook_merkle::InstantiateMsg { mailbox: "mailbox".into() }),
        _ => {
            let smart = |_: &str, _: &Binary| some_js(&mailbox::LocalDomainResponse { local_domain: 26657 });
            let m = va::InstantiateMsg { hrp: "osmo".into(), mailbox: bech("osmo", &[9; 32]) };
            tx(s, &Q::smart(&smart), |d| va::instantiate(d, env(), info("deployer", vec![]), m).map_err(|_| ()))
        }
    }
}
macro_rules! exec {
    ($s:expr, $who:expr, $m:ident, $x:expr) => {
        tx($s, &Q::none(), |d| $m::execute(d, env(), info($who, vec![]), $x).map_err(|_| ()))
    };
}
fn own(s: &mut Store, k: usize, who: &str, m: OwnableMsg) -> Option<Response> {
    macro_rules! go {
        ($m:ident) => {
            exec!(s, who, $m, $m::ExecuteMsg::Ownable(m))
        };
    }
    match k {
        0 => go!(mailbox),
        1 => go!(multisig),
        2 => go!(ism_agg),
        3 => go!(ism_routing),
        4 => go!(ism_pause),
        5 => go!(hook_agg),
        6 => go!(hook_fee),
        7 => go!(hook_pause),
        8 => go!(hook_routing),
        9 => go!(hook_custom),
        10 => go!(hook_fallback),
        11 => go!(igp),
        12 => exec!(s, who, oracle, oracle::ExecuteMsg::Ownership(m)),
        13 => go!(wcw20),
        _ => go!(wnative),
    }
}
fn ask<T: serde::de::DeserializeOwned>(s: &Store, k: usize, m: OwnableQueryMsg) -> Option<T> {
    macro_rules! go {
        ($m:ident) => {
            qry(s, &Q::none(), |d| $m::query(d, env(), $m::QueryMsg::Ownable(m)).map_err(|_| ()))
        };
    }
    match k {
        0 => go!(mailbox),
        1 => go!(multisig),
        2 => go!(ism_agg),
        3 => go!(ism_routing),
        4 => go!(ism_pause),
        5 => go!(hook_agg),
        6 => go!(hook_fee),
        7 => go!(hook_pause),
        8 => go!(hook_routing),
        9 => go!(hook_custom),
        10 => go!(hook_fallback),
        11 => go!(igp),
        12 => go!(oracle),
        13 => go!(wcw20),
        _ => go!(wnative),
    }
}
fn mig(s: &mut Store, k: usize) -> Option<Response> {
    macro_rules! go {
        ($m:ident) => {
            tx(s, &Q::none(), |d| $m::migrate(d, env(), Empty {}).map_err(|_| ()))
        };
    }
    match k {
        0 => go!(mailbox),
        1 => go!(multisig),
        2 => go!(ism_agg),
        3 => go!(ism_routing),
        4 => go!(ism_pause),
        5 => go!(hook_agg),
        6 => go!(hook_fee),
        7 => go!(hook_pause),
        8 => go!(hook_routing),
        9 => go!(hook_custom),
        10 => go!(hook_fallback),
        11 => go!(igp),
        12 => go!(oracle),
        13 => go!(wcw20),
        14 => go!(wnative),
        15 => go!(hook_merkle),
        _ => go!(va),
    }
}
fn r1<T>(route: T) -> RouterMsg<T> {
    RouterMsg::SetRoute { set: DomainRouteSet { domain: 3, route: Some(route) } }
}
fn rn<T>(route: T) -> RouterMsg<T> {
    RouterMsg::SetRoutes { set: vec![DomainRouteSet { domain: 4, route: Some(route) }] }
}
/// how many administrative operations contract `k` has
fn admin_ops(k: usize) -> usize {
    [3, 2, 1, 2, 2, 1, 2, 2, 2, 6, 3, 6, 2, 5, 5][k]
}
/// the `i`-th administrative operation; well formed, so that only the caller
/// decides whether it is accepted
fn admin(s: &mut Store, k: usize, i: usize, who: &str) -> Option<Response> {
    let a = || Addr::unchecked("routed");
    let h = || HexBinary::from(vec![7u8; 32]);
    let gd = || oracle::RemoteGasDataConfig { remote_domain: 3, token_exchange_rate: Uint128::new(9), gas_price: Uint128::new(8) };
    macro_rules! e {
        ($m:ident, $x:expr) => {
            exec!(s, who, $m, $x)
        };
    }
    let hook = || hook_custom::RegisterCustomHookMsg { dest_domain: 3, recipient: "07".repeat(32), hook: "routed".into() };
    let clear = || hook_custom::ClearCustomHookMsg { dest_domain: 3, recipient: "07".repeat(32) };
    let conn = |i| match i {
        2 => ConnectionMsg::SetMailbox { mailbox: "routed".into() },
        3 => ConnectionMsg::SetHook { hook: "routed".into() },
        _ => ConnectionMsg::SetIsm { ism: "routed".into() },
    };
    match (k, i) {
        (0, 0) => e!(mailbox, mailbox::ExecuteMsg::SetDefaultIsm { ism: "routed".into() }),
        (0, 1) => e!(mailbox, mailbox::ExecuteMsg::SetDefaultHook { hook: "routed".into() }),
        (0, _) => e!(mailbox, mailbox::ExecuteMsg::SetRequiredHook { hook: "routed".into() }),
        (1, 0) => e!(multisig, multisig::ExecuteMsg::SetValidators { domain: 3, threshold: 1, validators: vec![vec![5u8; 20].into()] }),
        (1, _) => e!(multisig, multisig::ExecuteMsg::UnsetDomain { domain: 3 }),
        (2, _) => e!(ism_agg, ism_agg::ExecuteMsg::SetIsms { isms: vec!["routed".into(), "other".into()], threshold: 2 }),
        (3, 0) => e!(ism_routing, ism_routing::ExecuteMsg::Set { ism: ism_routing::IsmSet { domain: 3, address: "routed".into() } }),
        (3, _) => e!(ism_routing, ism_routing::ExecuteMsg::Unset { domains: vec![3] }),
        (4, 0) => e!(ism_pause, ism_pause::ExecuteMsg::Pausable(pausable::PausableMsg::Pause {})),
        (4, _) => e!(ism_pause, ism_pause::ExecuteMsg::Pausable(pausable::PausableMsg::Release {})),
        (5, _) => e!(hook_agg, hook_agg::ExecuteMsg::SetHooks { hooks: vec!["routed".into()] }),
        (6, 0) => e!(hook_fee, hook_fee::ExecuteMsg::FeeHook(hook_fee::FeeHookMsg::SetFee { fee: coin(8, "utok") })),
        (6, _) => e!(hook_fee, hook_fee::ExecuteMsg::FeeHook(hook_fee::FeeHookMsg::Claim { recipient: None })),
        (7, 0) => e!(hook_pause, hook_pause::ExecuteMsg::Pausable(pausable::PausableMsg::Pause {})),
        (7, _) => e!(hook_pause, hook_pause::ExecuteMsg::Pausable(pausable::PausableMsg::Release {})),
        (8, 0) => e!(hook_routing, hook_routing::ExecuteMsg::Router(r1(a()))),
        (8, _) => e!(hook_routing, hook_routing::ExecuteMsg::Router(rn(a()))),
        (9, 0) => e!(hook_custom, hook_custom::ExecuteMsg::Router(r1(a()))),
        (9, 1) => e!(hook_custom, hook_custom::ExecuteMsg::Router(rn(a()))),
        (9, 2) => e!(hook_custom, hook_custom::ExecuteMsg::RegisterCustomHook(hook())),
        (9, 3) => e!(hook_custom, hook_custom::ExecuteMsg::RegisterCustomHooks(vec![hook()])),
        (9, 4) => e!(hook_custom, hook_custom::ExecuteMsg::ClearCustomHook(clear())),
        (9, _) => e!(hook_custom, hook_custom::ExecuteMsg::ClearCustomHooks(vec![clear()])),
        (10, 0) => e!(hook_fallback, hook_fallback::ExecuteMsg::Router(r1(a()))),
        (10, 1) => e!(hook_fallback, hook_fallback::ExecuteMsg::Router(rn(a()))),
        (10, _) => e!(hook_fallback, hook_fallback::ExecuteMsg::SetFallbackHook { hook: "routed".into() }),
        (11, 0) => e!(igp, igp::ExecuteMsg::Router(r1(a()))),
        (11, 1) => e!(igp, igp::ExecuteMsg::Router(rn(a()))),
        (11, 2) => e!(igp, igp::ExecuteMsg::SetDefaultGas { gas: 9 }),
        (11, 3) => e!(igp, igp::ExecuteMsg::SetGasForDomain { config: vec![(3, 9)] }),
        (11, 4) => e!(igp, igp::ExecuteMsg::UnsetGasForDomain { domains: vec![3] }),
        (11, _) => e!(igp, igp::ExecuteMsg::SetBeneficiary { beneficiary: "routed".into() }),
        (12, 0) => e!(oracle, oracle::ExecuteMsg::SetRemoteGasData { config: gd() }),
        (12, _) => e!(oracle, oracle::ExecuteMsg::SetRemoteGasDataConfigs { configs: vec![gd()] }),
        (13, 0) => e!(wcw20, wcw20::ExecuteMsg::Router(r1(h()))),
        (13, 1) => e!(wcw20, wcw20::ExecuteMsg::Router(rn(h()))),
        (13, i) => e!(wcw20, wcw20::ExecuteMsg::Connection(conn(i))),
        (_, 0) => e!(wnative, wnative::ExecuteMsg::Router(r1(h()))),
        (_, 1) => e!(wnative, wnative::ExecuteMsg::Router(rn(h()))),
        (_, i) => e!(wnative, wnative::ExecuteMsg::Connection(conn(i))),
    }
}
fn same_store(a: &Store, b: &Store) -> bool {
    a.kv.len() == b.kv.len() && a.kv == b.kv
}

// ----------------------------------------------------------------- ownership

struct Model {
    owner: String,
    pending: Option<String>,
}
fn opt_eq(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => seq(a, b),
        _ => false,
    }
}
fn state_is(s: &Store, k: usize, m: &Model) {
    let o = ask::<OwnerResponse>(s, k, OwnableQueryMsg::GetOwner {});
    let p = ask::<PendingOwnerResponse>(s, k, OwnableQueryMsg::GetPendingOwner {});
    sym::check(o.is_some() & p.is_some(), "the ownership queries answer");
    sym::check(seq(o.unwrap().owner.as_str(), &m.owner), "the owner is the one last accepted");
    sym::check(opt_eq(&p.unwrap().pending_owner.map(|x| x.to_string()), &m.pending), "the pending owner is the one last offered");
}
fn owner_setup(k: usize) -> (Store, Model) {
    let mut s = Store::new();
    let owner = sym::name("owner", 4);
    sym::check(inst(&mut s, k, &owner).is_some(), "instantiation succeeds");
    (s, Model { owner, pending: None })
}
fn step(s: &mut Store, k: usize, m: &mut Model) {
    let who = sym::name("who", 4);
    match sym::choice("op", 3) {
        0 => {
            let next = sym::name("next", 4);
            let ok = own(s, k, &who, OwnableMsg::InitOwnershipTransfer { next_owner: next.clone() }).is_some();
            sym::check(ok == (seq(&who, &m.owner) & m.pending.is_none()), "only the owner offers the ownership, one offer at a time");
            if ok {
                m.pending = Some(next);
                sym::reach("offered");
            }
        }
        1 => {
            let ok = own(s, k, &who, OwnableMsg::RevokeOwnershipTransfer {}).is_some();
            sym::check(ok == (seq(&who, &m.owner) & m.pending.is_some()), "only the owner withdraws a standing offer");
            if ok {
                m.pending = None;
                sym::reach("withdrawn");
            }
        }
        _ => {
            let ok = own(s, k, &who, OwnableMsg::ClaimOwnership {}).is_some();
            sym::check(ok == opt_eq(&Some(who.clone()), &m.pending), "only the account it is offered to claims the ownership");
            if ok {
                m.owner = m.pending.take().unwrap();
                sym::reach("claimed");
            }
        }
    }
    state_is(s, k, m);
}
fn history(ks: &[usize], n: usize) {
    let k = ks[sym::choice("contract", ks.len())];
    let (mut s, mut m) = owner_setup(k);
    for _ in 0..n {
        step(&mut s, k, &mut m);
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_s01_history() {
    // the same ownership code serves every contract: three steps in each, and
    // longer histories in one of them
    if sym::flag("all") {
        let v: Vec<usize> = (0..OWNED).collect();
        history(&v, 3)
    } else {
        history(&[1], 5)
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_s01d_history() {
    if sym::flag("all") {
        let v: Vec<usize> = (0..OWNED).collect();
        history(&v, 4)
    } else {
        history(&[8], 6)
    }
}
/// the ownership is never offered to something that is not an address
#[no_mangle]
pub extern "C-unwind" fn h_s01_invalid() {
    let k = sym::choice("contract", OWNED);
    let mut bad = "!".to_string();
    bad.push_str(&sym::name("bad", 3));
    if sym::flag("fresh") {
        let mut s = Store::new();
        sym::check(inst(&mut s, k, &bad).is_none(), "the first owner is a valid address");
    } else {
        let (mut s, m) = owner_setup(k);
        sym::check(own(&mut s, k, &m.owner, OwnableMsg::InitOwnershipTransfer { next_owner: bad }).is_none(), "the ownership is only offered to a valid address");
        state_is(&s, k, &m);
    }
    sym::reach("refused");
}
#[no_mangle]
pub extern "C-unwind" fn h_s01_fresh() {
    let k = sym::choice("contract", OWNED);
    let (s, m) = owner_setup(k);
    state_is(&s, k, &m);
    sym::reach("fresh");
}

// ------------------------------------------------------------ administration

/// whatever the contract's state, an administrative operation is accepted
/// exactly from the current owner, and a refused one changes nothing
#[no_mangle]
pub extern "C-unwind" fn h_s02_admin() {
    let k = sym::choice("contract", OWNED);
    let (mut s, m) = owner_setup(k);
    // a standing offer gives no rights
    let pending = sym::flag("offered");
    if pending {
        sym::check(own(&mut s, k, &m.owner, OwnableMsg::InitOwnershipTransfer { next_owner: sym::name("next", 4) }).is_some(), "the owner offers the ownership");
    }
    let i = sym::choice("op", admin_ops(k));
    if (k == 4 || k == 7) && i == 1 {
        // release needs a paused contract
        sym::check(admin(&mut s, k, 0, &m.owner).is_some(), "the owner pauses");
    }
    let before = s.clone();
    let who = sym::name("who", 4);
    let ok = admin(&mut s, k, i, &who).is_some();
    sym::check(ok == seq(&who, &m.owner), "an administrative operation is accepted exactly from the owner");
    if ok {
        sym::reach("accepted");
    } else {
        sym::check(same_store(&s, &before), "a refused operation changes nothing");
        sym::reach("refused");
    }
    // administration never touches the ownership
    let o = ask::<OwnerResponse>(&s, k, OwnableQueryMsg::GetOwner {}).unwrap();
    sym::check(seq(o.owner.as_str(), &m.owner), "administration leaves the owner alone");
}
/// after a completed hand-over the old owner is an ordinary account
#[no_mangle]
pub extern "C-unwind" fn h_s02_handover() {
    let k = sym::choice("contract", OWNED);
    let (mut s, m) = owner_setup(k);
    let next = sym::name("next", 4);
    let i = sym::choice("op", admin_ops(k));
    if (k == 4 || k == 7) && i == 1 {
        sym::check(admin(&mut s, k, 0, &m.owner).is_some(), "the owner pauses");
    }
    sym::check(own(&mut s, k, &m.owner, OwnableMsg::InitOwnershipTransfer { next_owner: next.clone() }).is_some(), "the owner offers the ownership");
    sym::check(own(&mut s, k, &next, OwnableMsg::ClaimOwnership {}).is_some(), "the offered account claims it");
    let old = sym::flag("old");
    let who = if old { m.owner.clone() } else { sym::name("who", 4) };
    let ok = admin(&mut s, k, i, &who).is_some();
    sym::check(ok == seq(&who, &next), "after the hand-over exactly the new owner administers");
    if ok {
        sym::reach("new owner");
    } else if old {
        sym::reach("old owner refused");
    }
}

/// an account the contract knows for another reason (its mailbox, a hook, a
/// module, a route, the beneficiary, the contract itself) does not administer
#[no_mangle]
pub extern "C-unwind" fn h_s02_role() {
    let k = sym::choice("contract", OWNED);
    let mut s = Store::new();
    sym::check(inst(&mut s, k, "owner").is_some(), "instantiation succeeds");
    let n = admin_ops(k);
    // every setting is made, so that "routed" holds every role
    for j in 0..n {
        if k == 6 && j == 1 {
            continue;
        }
        sym::check(admin(&mut s, k, j, "owner").is_some(), "the owner administers");
    }
    let i = sym::choice("op", n);
    if (k == 4 || k == 7) && i == 1 {
        sym::check(admin(&mut s, k, 0, "owner").is_some(), "the owner pauses");
    }
    let who = ["routed", "other", "mailbox", "ismone", "hookone", "benef", "token", "deployer", SELF][sym::choice("who", 9)];
    let before = s.clone();
    sym::check(admin(&mut s, k, i, who).is_none(), "an administrative operation is accepted exactly from the owner");
    sym::check(same_store(&s, &before), "a refused operation changes nothing");
    sym::reach("role refused");
}

// ------------------------------------------------------------------ listings

fn lim_ord() -> (Option<u32>, Option<Order>) {
    let l = match sym::choice("limit", 6) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        3 => Some(12),
        4 => Some(30),
        _ => Some(31),
    };
    let o = match sym::choice("order", 3) {
        0 => None,
        1 => Some(Order::Asc),
        _ => Some(Order::Desc),
    };
    (l, o)
}
/// independent listing: entries strictly beyond the offset, in order
fn page<K: PartialOrd + Clone, V: Clone>(all: &[(K, V)], off: &Option<K>, lim: Option<u32>, ord: &Option<Order>) -> Vec<(K, V)> {
    let desc = *ord == Some(Order::Desc);
    let mut v: Vec<(K, V)> = all.to_vec();
    if desc {
        v.reverse();
    }
    v.into_iter()
        .filter(|x| match off {
            None => true,
            Some(o) => {
                if desc {
                    x.0 < *o
                } else {
                    x.0 > *o
                }
            }
        })
        .take(lim.unwrap_or(10) as usize)
        .collect()
}
/// the contracts with a table of routes: `k` as in `inst`
fn routes_of(s: &Store, k: usize, q: (Option<u32>, Option<u32>, Option<Order>)) -> Option<Vec<(u32, Vec<u8>)>> {
    let (offset, limit, order) = q;
    macro_rules! addr {
        ($m:ident) => {
            qry::<_, RoutesResponse<Addr>>(s, &Q::none(), |d| $m::query(d, env(), $m::QueryMsg::Router(RouterQuery::ListRoutes { offset, limit, order })).map_err(|_| ()))
                .map(|r| r.routes.into_iter().map(|x| (x.domain, x.route.unwrap().as_bytes().to_vec())).collect())
        };
    }
    macro_rules! hex {
        ($m:ident) => {
            qry::<_, RoutesResponse<HexBinary>>(s, &Q::none(), |d| $m::query(d, env(), $m::QueryMsg::Router(RouterQuery::ListRoutes { offset, limit, order })).map_err(|_| ()))
                .map(|r| r.routes.into_iter().map(|x| (x.domain, x.route.unwrap().to_vec())).collect())
        };
    }
    match k {
        8 => addr!(hook_routing),
        9 => addr!(hook_custom),
        10 => addr!(hook_fallback),
        11 => addr!(igp),
        13 => hex!(wcw20),
        _ => hex!(wnative),
    }
}
fn set_routes(s: &mut Store, k: usize, owner: &str, t: &[(u32, Vec<u8>)]) -> Option<Response> {
    macro_rules! addr {
        ($m:ident) => {
            exec!(
                s,
                owner,
                $m,
                $m::ExecuteMsg::Router(RouterMsg::SetRoutes {
                    set: t.iter().map(|x| DomainRouteSet { domain: x.0, route: Some(Addr::unchecked(String::from_utf8(x.1.clone()).unwrap())) }).collect()
                })
            )
        };
    }
    macro_rules! hex {
        ($m:ident) => {
            exec!(
                s,
                owner,
                $m,
                $m::ExecuteMsg::Router(RouterMsg::SetRoutes { set: t.iter().map(|x| DomainRouteSet { domain: x.0, route: Some(x.1.clone().into()) }).collect() })
            )
        };
    }
    match k {
        8 => addr!(hook_routing),
        9 => addr!(hook_custom),
        10 => addr!(hook_fallback),
        11 => addr!(igp),
        13 => hex!(wcw20),
        _ => hex!(wnative),
    }
}
const ROUTERS: [usize; 6] = [8, 9, 10, 11, 13, 14];
fn listing(k: usize, domains: &[u32]) {
    let mut s = Store::new();
    sym::check(inst(&mut s, k, "owner").is_some(), "instantiation succeeds");
    let mut t: Vec<(u32, Vec<u8>)> = vec![];
    for (i, d) in domains.iter().enumerate() {
        let mut v = b"route".to_vec();
        v.push(b'a' + (i / 16) as u8);
        v.push(b'a' + (i % 16) as u8);
        t.push((*d, v));
    }
    // stored in an order that differs from the listing order
    let mut u = t.clone();
    u.reverse();
    let h = u.len() / 2;
    u.rotate_left(h);
    sym::check(set_routes(&mut s, k, "owner", &u).is_some(), "the owner sets routes");
    let off = if sym::flag("from") { Some(sym::u32_("offset")) } else { None };
    let (lim, ord) = lim_ord();
    let r = routes_of(&s, k, (off, lim, ord.clone()));
    if lim == Some(31) {
        sym::check(r.is_none(), "more than 30 entries cannot be asked for");
        sym::reach("oversized");
        return;
    }
    let want = page(&t, &off, lim, &ord);
    sym::check(r.is_some() && r.unwrap() == want, "the page has exactly the routes beyond the offset, in order");
    sym::reach("listed");
}
#[no_mangle]
pub extern "C-unwind" fn h_s03_routes() {
    let v: Vec<u32> = (1..=13).collect();
    listing(8, &v)
}
/// more routes than a page holds: following the pages visits all, and the
/// domains query lists all
#[no_mangle]
pub extern "C-unwind" fn h_s03_all() {
    let k = ROUTERS[sym::choice("contract", 6)];
    let mut s = Store::new();
    sym::check(inst(&mut s, k, "owner").is_some(), "instantiation succeeds");
    let t: Vec<(u32, Vec<u8>)> = (0..37u32).map(|i| (i * 7 + (i / 12) * 70000, vec![b'r', b'o', b'u', b'a' + (i / 16) as u8, b'a' + (i % 16) as u8])).collect();
    sym::check(set_routes(&mut s, k, "owner", &t).is_some(), "the owner sets routes");
    macro_rules! ds {
        ($m:ident) => {
            qry::<_, DomainsResponse>(&s, &Q::none(), |d| $m::query(d, env(), $m::QueryMsg::Router(RouterQuery::Domains {})).map_err(|_| ()))
        };
    }
    let r = match k {
        8 => ds!(hook_routing),
        9 => ds!(hook_custom),
        10 => ds!(hook_fallback),
        11 => ds!(igp),
        13 => ds!(wcw20),
        _ => ds!(wnative),
    };
    sym::check(r.map(|x| x.domains) == Some(t.iter().map(|x| x.0).collect()), "the domains query lists every domain with a route, in order");
    let desc = sym::flag("descending");
    let lim = [None, Some(1), Some(30)][sym::choice("limit", 3)];
    let (mut seen, mut off) = (vec![], None);
    loop {
        let r = routes_of(&s, k, (off, lim, Some(if desc { Order::Desc } else { Order::Asc }))).unwrap_or_default();
        let Some(l) = r.last() else { break };
        off = Some(l.0);
        seen.extend(r);
        if seen.len() > t.len() {
            break;
        }
    }
    if desc {
        seen.reverse();
    }
    sym::check(seen == t, "paging visits every entry exactly once");
    sym::reach("paged");
}
/// domains that differ in every byte position
#[no_mangle]
pub extern "C-unwind" fn h_s03_sparse() {
    listing(ROUTERS[sym::choice("contract", 6)], &[0, 1, 255, 256, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])
}
#[no_mangle]
pub extern "C-unwind" fn h_s03d_routes() {
    let v: Vec<u32> = (1..=33).map(|x| x * 100).collect();
    listing(ROUTERS[sym::choice("contract", 6)], &v)
}
fn custom(n: usize) {
    let (k, mut s) = (9, Store::new());
    sym::check(inst(&mut s, k, "owner").is_some(), "instantiation succeeds");
    let mut t: Vec<(String, String)> = vec![];
    let mut regs = vec![];
    for i in 0..n {
        let mut r = [0u8; 32];
        r[0] = 40 + i as u8;
        r[31] = 3;
        t.push((HexBinary::from(r.to_vec()).to_hex(), format!("hook{}", (b'a' + i as u8) as char)));
        regs.insert(i / 2, hook_custom::RegisterCustomHookMsg { dest_domain: 3, recipient: t[i].0.clone(), hook: t[i].1.clone() });
        // another destination's table is separate
        regs.push(hook_custom::RegisterCustomHookMsg { dest_domain: 259, recipient: t[i].0.clone(), hook: "other".into() });
    }
    sym::check(exec!(&mut s, "owner", hook_custom, hook_custom::ExecuteMsg::RegisterCustomHooks(regs)).is_some(), "the owner registers hooks");
    let off = if sym::flag("from") { Some(sym::hex("offset", 64)) } else { None };
    let (lim, ord) = lim_ord();
    let q = hook_custom::CustomRoutingHookQueryMsg::CustomHooks { dest_domain: 3, offset: off.clone(), limit: lim, order: ord.clone() };
    let r = qry::<_, hook_custom::CustomHooksResponse>(&s, &Q::none(), |d| hook_custom::query(d, env(), hook_custom::QueryMsg::CustomRoutingHook(q)).map_err(|_| ()));
    if lim == Some(31) {
        sym::check(r.is_none(), "more than 30 entries cannot be asked for");
        sym::reach("oversized");
        return;
    }
    let want = page(&t, &off, lim, &ord);
    sym::check(r.is_some(), "the listing answers");
    let r = r.unwrap().custom_hooks;
    sym::check(r.len() == want.len(), "the page has exactly the hooks beyond the offset");
    for (x, w) in r.iter().zip(want.iter()) {
        sym::check((x.recipient == w.0) & (x.hook == w.1), "in order, each with its recipient");
    }
    sym::reach("listed");
}
#[no_mangle]
pub extern "C-unwind" fn h_s03_custom() {
    custom(4)
}
#[no_mangle]
pub extern "C-unwind" fn h_s03d_custom() {
    custom(13)
}

// ----------------------------------------------------------------- migration

/// (major, minor, patch, pre-release)
fn version(v: &str) -> (u64, u64, u64, bool) {
    let (core, pre) = match v.split_once('-') {
        Some((c, _)) => (c, true),
        None => (v, false),
    };
    let p: Vec<u64> = core.split('.').map(|x| x.parse().unwrap()).collect();
    (p[0], p[1], p[2], pre)
}
fn set_version(s: &mut Store, name: &str, v: &str) {
    cw2::set_contract_version(s, name, v).unwrap();
}
/// every stored version x.y.z[-pre] with single digits
#[no_mangle]
pub extern "C-unwind" fn h_s04_migrate() {
    let k = sym::choice("contract", ALL);
    let mut s = Store::new();
    sym::check(inst(&mut s, k, "owner").is_some(), "instantiation succeeds");
    let Ok(cur) = cw2::get_contract_version(&s) else {
        sym::fail("a fresh contract records its version");
        return;
    };
    sym::check(mig(&mut s, k).is_none(), "the same version cannot be migrated to again");
    let now = version(&cur.version);
    let mut fields = [0u8; 3];
    let which = sym::choice("varying", 3);
    for i in 0..3 {
        fields[i] = [now.0, now.1, now.2][i] as u8 + b'0';
    }
    // one number is arbitrary, the ones before it as in the current version
    fields[which] = sym::chars("digit", 1, "01234567").as_bytes()[0];
    let pre = sym::flag("pre");
    let mut v = vec![fields[0], b'.', fields[1], b'.', fields[2]];
    if pre {
        v.extend_from_slice(b"-rc8");
    }
    let v = String::from_utf8(v).unwrap();
    let (a, b, c) = ((fields[0] - b'0') as u64, (fields[1] - b'0') as u64, (fields[2] - b'0') as u64);
    let (x, y) = ((a << 32) | (b << 16) | c, (now.0 << 32) | (now.1 << 16) | now.2);
    sym::assume(!now.3);
    let older = (x < y) | ((x == y) & pre);
    set_version(&mut s, &cur.contract, &v);
    let before = s.clone();
    let ok = mig(&mut s, k).is_some();
    sym::check(ok == older, "migration goes from a strictly older version only");
    if ok {
        let got = cw2::get_contract_version(&s).unwrap();
        sym::check((got.contract == cur.contract) & (got.version == cur.version), "afterwards the contract is at its new version");
        set_version(&mut s, &cur.contract, &v);
        sym::check(same_store(&s, &before), "migration changes nothing else");
        sym::reach("migrated");
    } else {
        sym::check(same_store(&s, &before), "a refused migration changes nothing");
        sym::reach("refused");
    }
}
/// a version around 1.2.3: one of its numbers is arbitrary, and it may be a pre-release
fn around(what: &str) -> (String, u64) {
    let mut f = *b"123";
    f[sym::choice(&format!("{what} varying"), 3)] = sym::chars(&format!("{what} digit"), 1, "01234567").as_bytes()[0];
    let mut v = vec![f[0], b'.', f[1], b'.', f[2]];
    let mut pre = 9;
    if sym::flag(&format!("{what} is a pre-release")) {
        let n = sym::chars(&format!("{what} candidate"), 1, "01234567").as_bytes()[0];
        v.extend_from_slice(b"-rc");
        v.push(n);
        pre = (n - b'0') as u64;
    }
    let (a, b, c) = ((f[0] - b'0') as u64, (f[1] - b'0') as u64, (f[2] - b'0') as u64);
    (String::from_utf8(v).unwrap(), (a << 24) | (b << 16) | (c << 8) | pre)
}
/// the rule itself, for releases that do not exist yet (pre-releases among them)
#[no_mangle]
pub extern "C-unwind" fn h_s04_rule() {
    let mut s = Store::new();
    let (old, x) = around("old");
    let (new, y) = around("new");
    set_version(&mut s, "hpl:x", &old);
    s.kv.push((b"other".to_vec(), b"kept".to_vec()));
    let before = s.clone();
    let ok = hpl_utils::migrate(&mut s, "hpl:x", &new).is_ok();
    sym::check(ok == (x < y), "migration goes from a strictly older version only");
    if ok {
        let got = cw2::get_contract_version(&s).unwrap();
        sym::check((got.contract == "hpl:x") & (got.version == new), "afterwards the contract is at its new version");
        set_version(&mut s, "hpl:x", &old);
        sym::reach("upgraded");
    } else {
        sym::reach("not upgraded");
    }
    sym::check(same_store(&s, &before), "nothing else changes");
}
/// a contract never takes over the state of a different one
#[no_mangle]
pub extern "C-unwind" fn h_s04_foreign() {
    let k = sym::choice("contract", ALL);
    let mut s = Store::new();
    sym::check(inst(&mut s, k, "owner").is_some(), "instantiation succeeds");
    let cur = cw2::get_contract_version(&s).unwrap();
    if sym::flag("other contract") {
        let mut t = Store::new();
        let l = sym::choice("other", ALL);
        if l == k {
            return;
        }
        sym::check(inst(&mut t, l, "owner").is_some(), "instantiation succeeds");
        let o = cw2::get_contract_version(&t).unwrap();
        sym::check(o.contract != cur.contract, "contracts have names of their own");
        set_version(&mut s, &o.contract, "0.0.1");
        sym::check(mig(&mut s, k).is_none(), "the state of another contract is refused");
        sym::reach("other contract refused");
    } else {
        let n = sym::name("contract name", 6);
        set_version(&mut s, &n, "0.0.1");
        sym::check(mig(&mut s, k).is_none(), "an unknown contract's state is refused");
        sym::reach("unknown refused");
    }
}
