//! The JSON interface that wallets, relayers, scripts and other contracts use.
use cosmwasm_std::*;
use hpl_interface::connection as cn;
use hpl_interface::core::{mailbox as mb, va, ExpectedHandleMsg, HandleMsg};
use hpl_interface::hook::{aggregate as ha, fee as hf, merkle as hm, pausable as hp, routing as hr, routing_custom as hc, routing_fallback as hb};
use hpl_interface::hook::{self as hk, ExpectedHookMsg, ExpectedHookQueryMsg, HookQueryMsg, PostDispatchMsg, QuoteDispatchMsg, QuoteDispatchResponse};
use hpl_interface::igp::{core as ic, oracle as io};
use hpl_interface::ism::{aggregate as ia, multisig as im, pausable as ip, routing as ir, *};
use hpl_interface::ownable::*;
use hpl_interface::pausable::*;
use hpl_interface::router::*;
use hpl_interface::warp::{self as w, cw20 as c, native as n, TokenModeMsg};
use hpl_interface::Order;
use serde::{de::DeserializeOwned, Serialize};
use vh::*;

sym::harnesses! { h_a02_mailbox, h_a02_roles, h_a02_va, h_a02_hooks, h_a02_tables, h_a02_isms, h_a02_igp, h_a02_warp }

/// JSON text from a template: ' is a quotation mark and @ the next value
fn j(t: &str, v: &[&str]) -> Vec<u8> {
    let (mut o, mut k) = (vec![], 0);
    for b in t.bytes() {
        match b {
            b'\'' => o.push(b'"'),
            b'@' => {
                o.extend_from_slice(v[k].as_bytes());
                k += 1;
            }
            _ => o.push(b),
        }
    }
    assert!(k == v.len());
    o
}
/// the text means the value, and the value is written so that it is read back
fn is<M: DeserializeOwned + Serialize + PartialEq>(t: &str, v: &[&str], m: M) {
    let r: Option<M> = from_json(j(t, v)).ok();
    sym::check(r.is_some(), "the documented JSON form is understood");
    sym::check(r.map(|x| x == m).unwrap_or(false), "the documented JSON form means what it says");
    let r: Option<M> = from_json(to_json_vec(&m).unwrap()).ok();
    sym::check(r.map(|x| x == m).unwrap_or(false), "what is written is read back");
}
struct V {
    a: String,
    b: String,
    c: String,
    d: u32,
    ds: String,
    u: u128,
    us: String,
    h: HexBinary,
    hs: String,
    k: HexBinary,
    ks: String,
}
fn v() -> V {
    let (d, u) = (sym::u32_("domain"), sym::u128_("amount"));
    let (h, k) = (sym::vec("bytes", 32), sym::vec("more", 3));
    V {
        a: sym::name("a", 6),
        b: sym::name("b", 6),
        c: sym::name("c", 4),
        d,
        ds: d.to_string(),
        u,
        us: u.to_string(),
        hs: hexs(&h),
        h: h.into(),
        ks: hexs(&k),
        k: k.into(),
    }
}
fn ad(s: &str) -> Addr {
    Addr::unchecked(s)
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_mailbox() {
    let V { a, b, d, ds, h, hs, k, ks, u, us, .. } = v();
    use mb::{ExecuteMsg as E, MailboxQueryMsg as M, QueryMsg as Q};
    is("{'hrp':'@','owner':'@','domain':@}", &[&a, &b, &ds], mb::InstantiateMsg { hrp: a.clone(), owner: b.clone(), domain: d });
    is("{'set_default_ism':{'ism':'@'}}", &[&a], E::SetDefaultIsm { ism: a.clone() });
    is("{'set_default_hook':{'hook':'@'}}", &[&a], E::SetDefaultHook { hook: a.clone() });
    is("{'set_required_hook':{'hook':'@'}}", &[&a], E::SetRequiredHook { hook: a.clone() });
    let m = mb::DispatchMsg { dest_domain: d, recipient_addr: h.clone(), msg_body: k.clone(), hook: None, metadata: None };
    is("{'dispatch':{'dest_domain':@,'recipient_addr':'@','msg_body':'@'}}", &[&ds, &hs, &ks], E::Dispatch(m.clone()));
    is("{'dispatch':{'dest_domain':@,'recipient_addr':'@','msg_body':'@','hook':null,'metadata':null}}", &[&ds, &hs, &ks], E::Dispatch(m.clone()));
    is("{'hook':{'quote_dispatch':{'sender':'@','msg':{'dest_domain':@,'recipient_addr':'@','msg_body':'@'}}}}", &[&a, &ds, &hs, &ks],
        Q::Hook(mb::MailboxHookQueryMsg::QuoteDispatch { sender: a.clone(), msg: m.clone() }));
    let m = mb::DispatchMsg { hook: Some(a.clone()), metadata: Some(k.clone()), ..m };
    is("{'dispatch':{'metadata':'@','hook':'@','msg_body':'@','recipient_addr':'@','dest_domain':@}}", &[&ks, &a, &ks, &hs, &ds], E::Dispatch(m));
    is("{'process':{'metadata':'@','message':'@'}}", &[&ks, &hs], E::Process { metadata: k.clone(), message: h.clone() });
    is("{'ownable':{'claim_ownership':{}}}", &[], E::Ownable(OwnableMsg::ClaimOwnership {}));
    is("{'message_id':'@'}", &[&hs], mb::DispatchResponse { message_id: h.clone() });
    is("{'mailbox':{'hrp':{}}}", &[], Q::Mailbox(M::Hrp {}));
    is("{'mailbox':{'local_domain':{}}}", &[], Q::Mailbox(M::LocalDomain {}));
    is("{'mailbox':{'message_delivered':{'id':'@'}}}", &[&hs], Q::Mailbox(M::MessageDelivered { id: h.clone() }));
    is("{'mailbox':{'default_ism':{}}}", &[], Q::Mailbox(M::DefaultIsm {}));
    is("{'mailbox':{'default_hook':{}}}", &[], Q::Mailbox(M::DefaultHook {}));
    is("{'mailbox':{'required_hook':{}}}", &[], Q::Mailbox(M::RequiredHook {}));
    is("{'mailbox':{'nonce':{}}}", &[], Q::Mailbox(M::Nonce {}));
    is("{'mailbox':{'recipient_ism':{'recipient_addr':'@'}}}", &[&a], Q::Mailbox(M::RecipientIsm { recipient_addr: a.clone() }));
    is("{'mailbox':{'latest_dispatch_id':{}}}", &[], Q::Mailbox(M::LatestDispatchId {}));
    is("{'ownable':{'get_owner':{}}}", &[], Q::Ownable(OwnableQueryMsg::GetOwner {}));
    is("{'hrp':'@'}", &[&a], mb::HrpResponse { hrp: a.clone() });
    is("{'local_domain':@}", &[&ds], mb::LocalDomainResponse { local_domain: d });
    is("{'delivered':true}", &[], mb::MessageDeliveredResponse { delivered: true });
    is("{'delivered':false}", &[], mb::MessageDeliveredResponse { delivered: false });
    is("{'default_ism':'@'}", &[&a], mb::DefaultIsmResponse { default_ism: a.clone() });
    is("{'default_hook':'@'}", &[&a], mb::DefaultHookResponse { default_hook: a.clone() });
    is("{'required_hook':'@'}", &[&a], mb::RequiredHookResponse { required_hook: a.clone() });
    is("{'ism':'@'}", &[&a], mb::RecipientIsmResponse { ism: a.clone() });
    is("{'nonce':@}", &[&ds], mb::NonceResponse { nonce: d });
    is("{'message_id':'@'}", &[&hs], mb::LatestDispatchedIdResponse { message_id: h.clone() });
    // what the mailbox hands to recipients and hooks
    is("{'handle':{'origin':@,'sender':'@','body':'@'}}", &[&ds, &hs, &ks], ExpectedHandleMsg::Handle(HandleMsg { origin: d, sender: h.clone(), body: k.clone() }));
    is("{'post_dispatch':{'metadata':'@','message':'@'}}", &[&ks, &hs], ExpectedHookMsg::PostDispatch(PostDispatchMsg { metadata: k.clone(), message: h.clone() }));
    is("{'hook':{'quote_dispatch':{'metadata':'@','message':'@'}}}", &[&ks, &hs], ExpectedHookQueryMsg::Hook(HookQueryMsg::QuoteDispatch(QuoteDispatchMsg { metadata: k.clone(), message: h.clone() })));
    is("{'hook':{'mailbox':{}}}", &[], ExpectedHookQueryMsg::Hook(HookQueryMsg::Mailbox {}));
    is("{'fees':[{'denom':'@','amount':'@'}]}", &[&a, &us], QuoteDispatchResponse { fees: vec![coin_(u, &a)] });
    is("{'ism_specifier':{'interchain_security_module':[]}}", &[], ExpectedIsmSpecifierQueryMsg::IsmSpecifier(IsmSpecifierQueryMsg::InterchainSecurityModule()));
    is("{'ism':'@'}", &[&a], InterchainSecurityModuleResponse { ism: Some(ad(&a)) });
    is("{'ism':null}", &[], InterchainSecurityModuleResponse { ism: None });
    sym::reach("mailbox messages");
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_roles() {
    let V { a, b, d, ds, h, hs, .. } = v();
    is("{'init_ownership_transfer':{'next_owner':'@'}}", &[&a], OwnableMsg::InitOwnershipTransfer { next_owner: a.clone() });
    is("{'revoke_ownership_transfer':{}}", &[], OwnableMsg::RevokeOwnershipTransfer {});
    is("{'claim_ownership':{}}", &[], OwnableMsg::ClaimOwnership {});
    is("{'get_owner':{}}", &[], OwnableQueryMsg::GetOwner {});
    is("{'get_pending_owner':{}}", &[], OwnableQueryMsg::GetPendingOwner {});
    is("{'owner':'@'}", &[&a], OwnerResponse { owner: ad(&a) });
    is("{'pending_owner':'@'}", &[&a], PendingOwnerResponse { pending_owner: Some(ad(&a)) });
    is("{'pending_owner':null}", &[], PendingOwnerResponse { pending_owner: None });
    is("{'pause':{}}", &[], PausableMsg::Pause {});
    is("{'release':{}}", &[], PausableMsg::Release {});
    is("{'pause_info':{}}", &[], PausableQueryMsg::PauseInfo {});
    is("{'paused':true}", &[], PauseInfoResponse { paused: true });
    is("{'paused':false}", &[], PauseInfoResponse { paused: false });
    let r = DomainRouteSet { domain: d, route: Some(ad(&a)) };
    let e = DomainRouteSet::<Addr> { domain: d, route: None };
    is("{'set_route':{'set':{'domain':@,'route':'@'}}}", &[&ds, &a], RouterMsg::SetRoute { set: r.clone() });
    is("{'set_route':{'set':{'domain':@,'route':null}}}", &[&ds], RouterMsg::SetRoute { set: e.clone() });
    is("{'set_route':{'set':{'domain':@}}}", &[&ds], RouterMsg::SetRoute { set: e.clone() });
    is("{'set_routes':{'set':[{'domain':@,'route':'@'},{'domain':@}]}}", &[&ds, &a, &ds], RouterMsg::SetRoutes { set: vec![r.clone(), e.clone()] });
    is("{'set_route':{'set':{'domain':@,'route':'@'}}}", &[&ds, &hs], RouterMsg::SetRoute { set: DomainRouteSet { domain: d, route: Some(h.clone()) } });
    is("{'domains':{}}", &[], RouterQuery::<Addr>::Domains {});
    is("{'get_route':{'domain':@}}", &[&ds], RouterQuery::<Addr>::GetRoute { domain: d });
    is("{'list_routes':{}}", &[], RouterQuery::<Addr>::ListRoutes { offset: None, limit: None, order: None });
    is("{'list_routes':{'offset':@,'limit':@,'order':'desc'}}", &[&ds, &ds], RouterQuery::<Addr>::ListRoutes { offset: Some(d), limit: Some(d), order: Some(Order::Desc) });
    is("{'list_routes':{'order':'asc'}}", &[], RouterQuery::<Addr>::ListRoutes { offset: None, limit: None, order: Some(Order::Asc) });
    is("{'domains':[@,7]}", &[&ds], DomainsResponse { domains: vec![d, 7] });
    is("{'route':{'domain':@,'route':'@'}}", &[&ds, &a], RouteResponse { route: r.clone() });
    is("{'route':{'domain':@,'route':null}}", &[&ds], RouteResponse { route: e.clone() });
    is("{'routes':[{'domain':@,'route':'@'}]}", &[&ds, &a], RoutesResponse { routes: vec![r] });
    is("{'set_mailbox':{'mailbox':'@'}}", &[&a], cn::ConnectionMsg::SetMailbox { mailbox: a.clone() });
    is("{'set_hook':{'hook':'@'}}", &[&a], cn::ConnectionMsg::SetHook { hook: a.clone() });
    is("{'set_ism':{'ism':'@'}}", &[&a], cn::ConnectionMsg::SetIsm { ism: a.clone() });
    is("{'get_mailbox':{}}", &[], cn::ConnectionQueryMsg::GetMailbox {});
    is("{'get_hook':{}}", &[], cn::ConnectionQueryMsg::GetHook {});
    is("{'get_ism':{}}", &[], cn::ConnectionQueryMsg::GetIsm {});
    is("{'mailbox':'@'}", &[&b], cn::MailboxResponse { mailbox: Some(b.clone()) });
    is("{'hook':'@'}", &[&b], cn::HookResponse { hook: Some(b.clone()) });
    is("{'ism':null}", &[], cn::IsmResponse { ism: None });
    sym::reach("roles and tables");
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_va() {
    let V { a, b, c, d, ds, h, hs, k, ks, .. } = v();
    is("{'hrp':'@','mailbox':'@'}", &[&a, &b], va::InstantiateMsg { hrp: a.clone(), mailbox: b.clone() });
    is("{'announce':{'validator':'@','signature':'@','storage_location':'@'}}", &[&hs, &ks, &a], va::ExecuteMsg::Announce { validator: h.clone(), signature: k.clone(), storage_location: a.clone() });
    is("{'get_announce_storage_locations':{'validators':['@','@']}}", &[&hs, &ks], va::QueryMsg::GetAnnounceStorageLocations { validators: vec![h.clone(), k.clone()] });
    is("{'get_announced_validators':{}}", &[], va::QueryMsg::GetAnnouncedValidators {});
    is("{'mailbox':{}}", &[], va::QueryMsg::Mailbox {});
    is("{'local_domain':{}}", &[], va::QueryMsg::LocalDomain {});
    is("{'storage_locations':[['@',['@','@']]]}", &[&a, &b, &c], va::GetAnnounceStorageLocationsResponse { storage_locations: vec![(a.clone(), vec![b.clone(), c.clone()])] });
    is("{'validators':['@','@']}", &[&a, &b], va::GetAnnouncedValidatorsResponse { validators: vec![a.clone(), b.clone()] });
    is("{'mailbox':'@'}", &[&a], va::MailboxResponse { mailbox: a.clone() });
    is("{'local_domain':@}", &[&ds], va::LocalDomainResponse { local_domain: d });
    sym::reach("announcements");
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_hooks() {
    let V { a, b, d, ds, h, hs, k, ks, u, us, .. } = v();
    let pd = || PostDispatchMsg { metadata: k.clone(), message: h.clone() };
    let qd = || HookQueryMsg::QuoteDispatch(QuoteDispatchMsg { metadata: k.clone(), message: h.clone() });
    let (p, q) = ("{'post_dispatch':{'metadata':'@','message':'@'}}", "{'hook':{'quote_dispatch':{'metadata':'@','message':'@'}}}");
    let x: &[&str] = &[&ks, &hs];
    is(p, x, ha::ExecuteMsg::PostDispatch(pd()));
    is(p, x, hf::ExecuteMsg::PostDispatch(pd()));
    is(p, x, hm::ExecuteMsg::PostDispatch(pd()));
    is(p, x, hp::ExecuteMsg::PostDispatch(pd()));
    is(p, x, hr::ExecuteMsg::PostDispatch(pd()));
    is(p, x, hc::ExecuteMsg::PostDispatch(pd()));
    is(p, x, hb::ExecuteMsg::PostDispatch(pd()));
    is(p, x, ic::ExecuteMsg::PostDispatch(pd()));
    is(q, x, ha::QueryMsg::Hook(qd()));
    is(q, x, hf::QueryMsg::Hook(qd()));
    is(q, x, hm::QueryMsg::Hook(qd()));
    is(q, x, hp::QueryMsg::Hook(qd()));
    is(q, x, hr::QueryMsg::Hook(qd()));
    is(q, x, hc::QueryMsg::Hook(qd()));
    is(q, x, hb::QueryMsg::Hook(qd()));
    is(q, x, ic::QueryMsg::Hook(qd()));
    is("{'mailbox':'@'}", &[&a], hk::MailboxResponse { mailbox: a.clone() });
    is("{'owner':'@','hooks':['@','@']}", &[&a, &b, &a], ha::InstantiateMsg { owner: a.clone(), hooks: vec![b.clone(), a.clone()] });
    is("{'set_hooks':{'hooks':['@','@']}}", &[&b, &a], ha::ExecuteMsg::SetHooks { hooks: vec![b.clone(), a.clone()] });
    is("{'aggregate_hook':{'hooks':{}}}", &[], ha::QueryMsg::AggregateHook(ha::AggregateHookQueryMsg::Hooks {}));
    is("{'hooks':['@']}", &[&a], ha::HooksResponse { hooks: vec![a.clone()] });
    is("{'owner':'@','fee':{'denom':'@','amount':'@'}}", &[&a, &b, &us], hf::InstantiateMsg { owner: a.clone(), fee: coin_(u, &b) });
    is("{'fee_hook':{'set_fee':{'fee':{'denom':'@','amount':'@'}}}}", &[&b, &us], hf::ExecuteMsg::FeeHook(hf::FeeHookMsg::SetFee { fee: coin_(u, &b) }));
    is("{'fee_hook':{'claim':{'recipient':'@'}}}", &[&b], hf::ExecuteMsg::FeeHook(hf::FeeHookMsg::Claim { recipient: Some(ad(&b)) }));
    is("{'fee_hook':{'claim':{}}}", &[], hf::ExecuteMsg::FeeHook(hf::FeeHookMsg::Claim { recipient: None }));
    is("{'fee_hook':{'fee':{}}}", &[], hf::QueryMsg::FeeHook(hf::FeeHookQueryMsg::Fee {}));
    is("{'fee':{'denom':'@','amount':'@'}}", &[&b, &us], hf::FeeResponse { fee: coin_(u, &b) });
    is("{'mailbox':'@'}", &[&a], hm::InstantiateMsg { mailbox: a.clone() });
    is("{'merkle_hook':{'count':{}}}", &[], hm::QueryMsg::MerkleHook(hm::MerkleHookQueryMsg::Count {}));
    is("{'merkle_hook':{'root':{}}}", &[], hm::QueryMsg::MerkleHook(hm::MerkleHookQueryMsg::Root {}));
    is("{'merkle_hook':{'branch':{}}}", &[], hm::QueryMsg::MerkleHook(hm::MerkleHookQueryMsg::Branch {}));
    is("{'merkle_hook':{'tree':{}}}", &[], hm::QueryMsg::MerkleHook(hm::MerkleHookQueryMsg::Tree {}));
    is("{'merkle_hook':{'check_point':{}}}", &[], hm::QueryMsg::MerkleHook(hm::MerkleHookQueryMsg::CheckPoint {}));
    is("{'count':@}", &[&ds], hm::CountResponse { count: d });
    is("{'root':'@'}", &[&hs], hm::RootResponse { root: h.clone() });
    is("{'root':'@','count':@}", &[&hs, &ds], hm::CheckPointResponse { root: h.clone(), count: d });
    let br = "['@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@','@']";
    let branch: [HexBinary; 32] = std::array::from_fn(|i| if i % 2 == 0 { h.clone() } else { k.clone() });
    let mut bv: Vec<&str> = (0..32).map(|i| if i % 2 == 0 { hs.as_str() } else { ks.as_str() }).collect();
    is(&format!("{{'branch':{br}}}"), &bv, hm::BranchResponse { branch: branch.clone() });
    bv.push(&ds);
    is(&format!("{{'branch':{br},'count':@}}"), &bv, hm::TreeResponse { branch, count: d });
    is("{'owner':'@','paused':true}", &[&a], hp::InstantiateMsg { owner: a.clone(), paused: true });
    is("{'pausable':{'pause':{}}}", &[], hp::ExecuteMsg::Pausable(PausableMsg::Pause {}));
    is("{'pausable':{'pause_info':{}}}", &[], hp::QueryMsg::Pausable(PausableQueryMsg::PauseInfo {}));
    sym::reach("hook messages");
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_tables() {
    let V { a, b, d, ds, hs, .. } = v();
    is("{'owner':'@'}", &[&a], hr::InstantiateMsg { owner: a.clone() });
    is("{'owner':'@'}", &[&a], hc::InstantiateMsg { owner: a.clone() });
    is("{'owner':'@'}", &[&a], hb::InstantiateMsg { owner: a.clone() });
    let set = || DomainRouteSet { domain: d, route: Some(ad(&a)) };
    let t = "{'router':{'set_route':{'set':{'domain':@,'route':'@'}}}}";
    is(t, &[&ds, &a], hr::ExecuteMsg::Router(RouterMsg::SetRoute { set: set() }));
    is(t, &[&ds, &a], hc::ExecuteMsg::Router(RouterMsg::SetRoute { set: set() }));
    is(t, &[&ds, &a], hb::ExecuteMsg::Router(RouterMsg::SetRoute { set: set() }));
    is(t, &[&ds, &a], ic::ExecuteMsg::Router(RouterMsg::SetRoute { set: set() }));
    let t = "{'router':{'get_route':{'domain':@}}}";
    is(t, &[&ds], hr::QueryMsg::Router(RouterQuery::GetRoute { domain: d }));
    is(t, &[&ds], hc::QueryMsg::Router(RouterQuery::GetRoute { domain: d }));
    is(t, &[&ds], hb::QueryMsg::Router(RouterQuery::GetRoute { domain: d }));
    is(t, &[&ds], ic::QueryMsg::Router(RouterQuery::GetRoute { domain: d }));
    is("{'set_fallback_hook':{'hook':'@'}}", &[&a], hb::ExecuteMsg::SetFallbackHook { hook: a.clone() });
    let r = hc::RegisterCustomHookMsg { dest_domain: d, recipient: hs.clone(), hook: b.clone() };
    let x = hc::ClearCustomHookMsg { dest_domain: d, recipient: hs.clone() };
    is("{'register_custom_hook':{'dest_domain':@,'recipient':'@','hook':'@'}}", &[&ds, &hs, &b], hc::ExecuteMsg::RegisterCustomHook(r.clone()));
    is("{'register_custom_hooks':[{'dest_domain':@,'recipient':'@','hook':'@'}]}", &[&ds, &hs, &b], hc::ExecuteMsg::RegisterCustomHooks(vec![r]));
    is("{'clear_custom_hook':{'dest_domain':@,'recipient':'@'}}", &[&ds, &hs], hc::ExecuteMsg::ClearCustomHook(x.clone()));
    is("{'clear_custom_hooks':[{'dest_domain':@,'recipient':'@'}]}", &[&ds, &hs], hc::ExecuteMsg::ClearCustomHooks(vec![x]));
    let w = hc::QueryMsg::CustomRoutingHook;
    is("{'custom_routing_hook':{'custom_hook':{'dest_domain':@,'recipient':'@'}}}", &[&ds, &hs], w(hc::CustomRoutingHookQueryMsg::CustomHook { dest_domain: d, recipient: hs.clone() }));
    is("{'custom_routing_hook':{'custom_hooks':{'dest_domain':@}}}", &[&ds], w(hc::CustomRoutingHookQueryMsg::CustomHooks { dest_domain: d, offset: None, limit: None, order: None }));
    is("{'custom_routing_hook':{'custom_hooks':{'dest_domain':@,'offset':'@','limit':@,'order':'desc'}}}", &[&ds, &hs, &ds],
        w(hc::CustomRoutingHookQueryMsg::CustomHooks { dest_domain: d, offset: Some(hs.clone()), limit: Some(d), order: Some(Order::Desc) }));
    let r = hc::CustomHookResponse { dest_domain: d, recipient: hs.clone(), hook: b.clone() };
    is("{'dest_domain':@,'recipient':'@','hook':'@'}", &[&ds, &hs, &b], r.clone());
    is("{'custom_hooks':[{'dest_domain':@,'recipient':'@','hook':'@'}]}", &[&ds, &hs, &b], hc::CustomHooksResponse { custom_hooks: vec![r] });
    sym::reach("routing hook messages");
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_isms() {
    let V { a, b, d, ds, h, hs, k, ks, .. } = v();
    let (t, ts) = (sym::u8_("threshold"), ());
    let _ = ts;
    let ts = t.to_string();
    let ver = || IsmQueryMsg::Verify { metadata: k.clone(), message: h.clone() };
    let q = "{'ism':{'verify':{'metadata':'@','message':'@'}}}";
    is(q, &[&ks, &hs], ExpectedIsmQueryMsg::Ism(ver()));
    is(q, &[&ks, &hs], ia::QueryMsg::Ism(ver()));
    is(q, &[&ks, &hs], im::QueryMsg::Ism(ver()));
    is(q, &[&ks, &hs], ip::QueryMsg::Ism(ver()));
    is(q, &[&ks, &hs], ir::QueryMsg::Ism(ver()));
    is("{'ism':{'module_type':{}}}", &[], ExpectedIsmQueryMsg::Ism(IsmQueryMsg::ModuleType {}));
    is("{'ism':{'verify_info':{'message':'@'}}}", &[&hs], ExpectedIsmQueryMsg::Ism(IsmQueryMsg::VerifyInfo { message: h.clone() }));
    is("{'verified':true}", &[], VerifyResponse { verified: true });
    is("{'verified':false}", &[], VerifyResponse { verified: false });
    is("{'threshold':@,'validators':['@']}", &[&ts, &hs], VerifyInfoResponse { threshold: t, validators: vec![h.clone()] });
    for (n, m) in [
        ("unused", IsmType::Unused),
        ("routing", IsmType::Routing),
        ("aggregation", IsmType::Aggregation),
        ("legacy_multisig", IsmType::LegacyMultisig),
        ("merkle_root_multisig", IsmType::MerkleRootMultisig),
        ("message_id_multisig", IsmType::MessageIdMultisig),
        ("ccip_read", IsmType::CcipRead),
    ] {
        is("{'type':'@'}", &[n], ModuleTypeResponse { typ: m });
    }
    is("{'owner':'@','isms':['@'],'threshold':@}", &[&a, &b, &ts], ia::InstantiateMsg { owner: a.clone(), isms: vec![b.clone()], threshold: t });
    is("{'set_isms':{'isms':['@','@'],'threshold':@}}", &[&a, &b, &ts], ia::ExecuteMsg::SetIsms { isms: vec![a.clone(), b.clone()], threshold: t });
    is("{'aggregate_ism':{'isms':{}}}", &[], ia::QueryMsg::AggregateIsm(ia::AggregateIsmQueryMsg::Isms {}));
    is("{'isms':['@'],'threshold':@}", &[&a, &ts], ia::IsmsResponse { isms: vec![a.clone()], threshold: t });
    is("{'owner':'@'}", &[&a], im::InstantiateMsg { owner: a.clone() });
    is("{'set_validators':{'domain':@,'threshold':@,'validators':['@','@']}}", &[&ds, &ts, &hs, &ks], im::ExecuteMsg::SetValidators { domain: d, threshold: t, validators: vec![h.clone(), k.clone()] });
    is("{'unset_domain':{'domain':@}}", &[&ds], im::ExecuteMsg::UnsetDomain { domain: d });
    is("{'multisig_ism':{'enrolled_validators':{'domain':@}}}", &[&ds], im::QueryMsg::MultisigIsm(im::MultisigIsmQueryMsg::EnrolledValidators { domain: d }));
    is("{'validators':['@'],'threshold':@}", &[&hs, &ts], im::EnrolledValidatorsResponse { validators: vec![h.clone()], threshold: t });
    is("{'owner':'@','paused':false}", &[&a], ip::InstantiateMsg { owner: a.clone(), paused: false });
    is("{'pausable':{'release':{}}}", &[], ip::ExecuteMsg::Pausable(PausableMsg::Release {}));
    is("{'pausable':{'pause_info':{}}}", &[], ip::QueryMsg::Pausable(PausableQueryMsg::PauseInfo {}));
    let s = ir::IsmSet { domain: d, address: b.clone() };
    is("{'owner':'@','isms':[{'domain':@,'address':'@'}]}", &[&a, &ds, &b], ir::InstantiateMsg { owner: a.clone(), isms: vec![s.clone()] });
    is("{'set':{'ism':{'domain':@,'address':'@'}}}", &[&ds, &b], ir::ExecuteMsg::Set { ism: s });
    is("{'unset':{'domains':[@,3]}}", &[&ds], ir::ExecuteMsg::Unset { domains: vec![d, 3] });
    is("{'routing_ism':{'route':{'message':'@'}}}", &[&hs], ir::QueryMsg::RoutingIsm(ir::RoutingIsmQueryMsg::Route { message: h.clone() }));
    is("{'ism':'@'}", &[&a], ir::RouteResponse { ism: a.clone() });
    sym::reach("security module messages");
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_igp() {
    let V { a, b, c, d, ds, u, us, h, hs, .. } = v();
    use ic::{ExecuteMsg as E, IgpQueryMsg as M, QueryMsg as Q};
    let g = Uint256::from_uint128(Uint128::new(u));
    is("{'hrp':'@','owner':'@','gas_token':'@','beneficiary':'@','default_gas_usage':'@'}", &[&a, &b, &c, &a, &us],
        ic::InstantiateMsg { hrp: a.clone(), owner: b.clone(), gas_token: c.clone(), beneficiary: a.clone(), default_gas_usage: u });
    is("{'set_default_gas':{'gas':'@'}}", &[&us], E::SetDefaultGas { gas: u });
    is("{'set_gas_for_domain':{'config':[[@,'@'],[3,'4']]}}", &[&ds, &us], E::SetGasForDomain { config: vec![(d, u), (3, 4)] });
    is("{'unset_gas_for_domain':{'domains':[@]}}", &[&ds], E::UnsetGasForDomain { domains: vec![d] });
    is("{'set_beneficiary':{'beneficiary':'@'}}", &[&a], E::SetBeneficiary { beneficiary: a.clone() });
    is("{'pay_for_gas':{'message_id':'@','dest_domain':@,'gas_amount':'@','refund_address':'@'}}", &[&hs, &ds, &us, &a],
        E::PayForGas { message_id: h.clone(), dest_domain: d, gas_amount: g, refund_address: a.clone() });
    is("{'claim':{}}", &[], E::Claim {});
    is("{'igp':{'default_gas':{}}}", &[], Q::Igp(M::DefaultGas {}));
    is("{'igp':{'gas_for_domain':{'domains':[@]}}}", &[&ds], Q::Igp(M::GasForDomain { domains: vec![d] }));
    is("{'igp':{'list_gas_for_domains':{'offset':@,'order':'asc'}}}", &[&ds], Q::Igp(M::ListGasForDomains { offset: Some(d), limit: None, order: Some(Order::Asc) }));
    is("{'igp':{'beneficiary':{}}}", &[], Q::Igp(M::Beneficiary {}));
    is("{'igp':{'quote_gas_payment':{'dest_domain':@,'gas_amount':'@'}}}", &[&ds, &us], Q::Igp(M::QuoteGasPayment { dest_domain: d, gas_amount: g }));
    is("{'gas':'@'}", &[&us], ic::DefaultGasResponse { gas: u });
    is("{'gas':[[@,'@']]}", &[&ds, &us], ic::GasForDomainResponse { gas: vec![(d, u)] });
    is("{'beneficiary':'@'}", &[&a], ic::BeneficiaryResponse { beneficiary: a.clone() });
    is("{'gas_needed':'@'}", &[&us], ic::QuoteGasPaymentResponse { gas_needed: g });
    let o = io::RemoteGasDataConfig { remote_domain: d, token_exchange_rate: u.into(), gas_price: 9u128.into() };
    is("{'owner':'@'}", &[&a], io::InstantiateMsg { owner: a.clone() });
    is("{'set_remote_gas_data':{'config':{'remote_domain':@,'token_exchange_rate':'@','gas_price':'9'}}}", &[&ds, &us], io::ExecuteMsg::SetRemoteGasData { config: o.clone() });
    is("{'set_remote_gas_data_configs':{'configs':[{'remote_domain':@,'token_exchange_rate':'@','gas_price':'9'}]}}", &[&ds, &us], io::ExecuteMsg::SetRemoteGasDataConfigs { configs: vec![o] });
    is("{'ownership':{'claim_ownership':{}}}", &[], io::ExecuteMsg::Ownership(OwnableMsg::ClaimOwnership {}));
    let q = io::IgpGasOracleQueryMsg::GetExchangeRateAndGasPrice { dest_domain: d };
    let t = "{'oracle':{'get_exchange_rate_and_gas_price':{'dest_domain':@}}}";
    is(t, &[&ds], io::QueryMsg::Oracle(q.clone()));
    is(t, &[&ds], Q::Oracle(q));
    is("{'gas_price':'9','exchange_rate':'@'}", &[&us], io::GetExchangeRateAndGasPriceResponse { gas_price: 9u128.into(), exchange_rate: u.into() });
    sym::reach("gas messages");
}
#[no_mangle]
pub extern "C-unwind" fn h_a02_warp() {
    let V { a, b, c: x, d, ds, u, us, h, hs, k, ks } = v();
    let am = Uint128::new(u);
    let t = "{'transfer_remote':{'dest_domain':@,'recipient':'@','amount':'@'}}";
    is(t, &[&ds, &hs, &us], n::ExecuteMsg::TransferRemote { dest_domain: d, recipient: h.clone(), amount: am, hook: None, metadata: None });
    is(t, &[&ds, &hs, &us], c::ExecuteMsg::TransferRemote { dest_domain: d, recipient: h.clone(), amount: am, hook: None, metadata: None });
    let t = "{'transfer_remote':{'dest_domain':@,'recipient':'@','amount':'@','hook':'@','metadata':'@'}}";
    is(t, &[&ds, &hs, &us, &a, &ks], n::ExecuteMsg::TransferRemote { dest_domain: d, recipient: h.clone(), amount: am, hook: Some(a.clone()), metadata: Some(k.clone()) });
    is(t, &[&ds, &hs, &us, &a, &ks], c::ExecuteMsg::TransferRemote { dest_domain: d, recipient: h.clone(), amount: am, hook: Some(a.clone()), metadata: Some(k.clone()) });
    // the mailbox's call
    let m = || HandleMsg { origin: d, sender: h.clone(), body: k.clone() };
    let t = "{'handle':{'origin':@,'sender':'@','body':'@'}}";
    is(t, &[&ds, &hs, &ks], n::ExecuteMsg::Handle(m()));
    is(t, &[&ds, &hs, &ks], c::ExecuteMsg::Handle(m()));
    let t = "{'ism_specifier':{'interchain_security_module':[]}}";
    is(t, &[], n::QueryMsg::IsmSpecifier(IsmSpecifierQueryMsg::InterchainSecurityModule()));
    is(t, &[], c::QueryMsg::IsmSpecifier(IsmSpecifierQueryMsg::InterchainSecurityModule()));
    let t = "{'router':{'set_route':{'set':{'domain':@,'route':'@'}}}}";
    let r = || RouterMsg::SetRoute { set: DomainRouteSet { domain: d, route: Some(h.clone()) } };
    is(t, &[&ds, &hs], n::ExecuteMsg::Router(r()));
    is(t, &[&ds, &hs], c::ExecuteMsg::Router(r()));
    let t = "{'connection':{'set_hook':{'hook':'@'}}}";
    is(t, &[&a], n::ExecuteMsg::Connection(cn::ConnectionMsg::SetHook { hook: a.clone() }));
    is(t, &[&a], c::ExecuteMsg::Connection(cn::ConnectionMsg::SetHook { hook: a.clone() }));
    let t = "{'connection':{'get_ism':{}}}";
    is(t, &[], n::QueryMsg::Connection(cn::ConnectionQueryMsg::GetIsm {}));
    is(t, &[], c::QueryMsg::Connection(cn::ConnectionQueryMsg::GetIsm {}));
    let t = "{'token_default':{'token_type':{}}}";
    is(t, &[], n::QueryMsg::TokenDefault(w::TokenWarpDefaultQueryMsg::TokenType {}));
    is(t, &[], c::QueryMsg::TokenDefault(w::TokenWarpDefaultQueryMsg::TokenType {}));
    is("{'token_default':{'token_mode':{}}}", &[], n::QueryMsg::TokenDefault(w::TokenWarpDefaultQueryMsg::TokenMode {}));
    is("{'type':{'native':{'fungible':{'denom':'@'}}}}", &[&a], w::TokenTypeResponse { typ: w::TokenType::Native(w::TokenTypeNative::Fungible { denom: a.clone() }) });
    is("{'type':{'c_w20':{'contract':'@'}}}", &[&a], w::TokenTypeResponse { typ: w::TokenType::CW20 { contract: a.clone() } });
    is("{'mode':'bridged'}", &[], w::TokenModeResponse { mode: w::TokenMode::Bridged });
    is("{'mode':'collateral'}", &[], w::TokenModeResponse { mode: w::TokenMode::Collateral });
    let (o, mx) = (b.clone(), x.clone());
    is("{'token':{'collateral':{'denom':'@'}},'hrp':'osmo','owner':'@','mailbox':'@'}", &[&a, &b, &x],
        n::InstantiateMsg { token: TokenModeMsg::Collateral(n::NativeModeCollateral { denom: a.clone() }), hrp: "osmo".into(), owner: o.clone(), mailbox: mx.clone() });
    let md = n::Metadata {
        description: a.clone(),
        denom_units: vec![n::DenomUnit { denom: b.clone(), exponent: d, aliases: vec![x.clone()] }],
        base: b.clone(),
        display: x.clone(),
        name: a.clone(),
        symbol: b.clone(),
    };
    is("{'token':{'bridged':{'denom':'@','metadata':{'description':'@','denom_units':[{'denom':'@','exponent':'@','aliases':['@']}],'base':'@','display':'@','name':'@','symbol':'@'}}},'hrp':'osmo','owner':'@','mailbox':'@'}",
        &[&a, &a, &b, &ds, &x, &b, &x, &a, &b, &b, &x],
        n::InstantiateMsg { token: TokenModeMsg::Bridged(n::NativeModeBriged { denom: a.clone(), metadata: Some(md) }), hrp: "osmo".into(), owner: o.clone(), mailbox: mx.clone() });
    is("{'token':{'collateral':{'address':'@'}},'hrp':'osmo','owner':'@','mailbox':'@'}", &[&a, &b, &x],
        c::InstantiateMsg { token: TokenModeMsg::Collateral(c::Cw20ModeCollateral { address: a.clone() }), hrp: "osmo".into(), owner: o.clone(), mailbox: mx.clone() });
    sym::reach("token route messages");
}
