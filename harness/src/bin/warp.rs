//! Warp routes: the native-coin and the cw20 token bridge contracts.
use cosmwasm_std::*;
use ::cw20::Cw20ExecuteMsg;
use hpl_interface::connection::*;
use hpl_interface::core::mailbox::DispatchMsg;
use hpl_interface::core::HandleMsg;
use hpl_interface::ism::{InterchainSecurityModuleResponse, IsmSpecifierQueryMsg};
use hpl_interface::router::*;
use hpl_interface::warp::*;
use hpl_warp_cw20::contract as wc;
use hpl_warp_native::contract as wn;
use vh::*;

sym::harnesses! {
    h_w01_native, h_w01_cw20, h_w01_auth, h_w01_short, h_w01d_native, h_w01d_cw20,
    h_w02_native, h_w02_cw20, h_w02_recipient, h_w02_route, h_w02d_native, h_w02d_cw20,
    h_w03_init, h_w03_meta, h_w03_admin, h_w03_conn, h_w03_reply, h_w03d_routes,
    h_w04_trip, h_w04d_trip,
}

/// which contract, and whether it mints (bridged) or locks (collateral)
#[derive(Clone, Copy, PartialEq)]
struct K {
    cw20: bool,
    bridged: bool,
}
impl K {
    /// the token as the contract names it
    fn token(self) -> &'static str {
        match (self.cw20, self.bridged) {
            (false, true) => "factory/self_contract/uwarp",
            (false, false) => "utok",
            (true, true) => "newcw20",
            (true, false) => "oldcw20",
        }
    }
}
fn kind(cw20: bool) -> K {
    K { cw20, bridged: sym::flag("bridged") }
}
fn cw20_init() -> hpl_interface::warp::cw20::Cw20InitMsg {
    hpl_interface::warp::cw20::Cw20InitMsg {
        name: "token".into(),
        symbol: "TOK".into(),
        decimals: 6,
        initial_balances: vec![],
        mint: Some(::cw20::MinterResponse { minter: "someone".into(), cap: None }),
        marketing: None,
    }
}
fn instantiate(s: &mut Store, k: K, hrp: &str, owner: &str, mailbox: &str) -> Option<Response> {
    use hpl_interface::warp::{cw20 as c, native as n};
    if k.cw20 {
        let token = if k.bridged {
            TokenModeMsg::Bridged(c::Cw20ModeBridged { code_id: 17, init_msg: Box::new(cw20_init()) })
        } else {
            TokenModeMsg::Collateral(c::Cw20ModeCollateral { address: k.token().into() })
        };
        let m = c::InstantiateMsg { token, hrp: hrp.into(), owner: owner.into(), mailbox: mailbox.into() };
        tx(s, &Q::none(), |d| wc::instantiate(d, env(), info("deployer", vec![]), m))
    } else {
        let token = if k.bridged {
            TokenModeMsg::Bridged(n::NativeModeBriged { denom: "uwarp".into(), metadata: None })
        } else {
            TokenModeMsg::Collateral(n::NativeModeCollateral { denom: k.token().into() })
        };
        let m = n::InstantiateMsg { token, hrp: hrp.into(), owner: owner.into(), mailbox: mailbox.into() };
        tx(s, &Q::none(), |d| wn::instantiate(d, env(), info("deployer", vec![]), m))
    }
}
/// protobuf answer with one string in field 1
fn pb1(t: &str) -> Binary {
    let mut v = vec![10, t.len() as u8];
    v.extend_from_slice(t.as_bytes());
    Binary(v)
}
fn reply(s: &mut Store, k: K, id: u64, data: Option<Binary>) -> Option<Response> {
    let r = Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data }) };
    tx(s, &Q::none(), |d| if k.cw20 { wc::reply(d, env(), r).ok() } else { wn::reply(d, env(), r).ok() }.ok_or(()))
}
fn setup(k: K, hrp: &str) -> Store {
    let mut s = Store::new();
    sym::check(instantiate(&mut s, k, hrp, "owner", "mailbox").is_some(), "instantiation succeeds");
    if k.bridged {
        sym::check(reply(&mut s, k, 0, Some(pb1(k.token()))).is_some(), "the created token is accepted");
    }
    s
}
enum M {
    Router(RouterMsg<HexBinary>),
    Connection(ConnectionMsg),
    Handle(HandleMsg),
    Transfer { dest: u32, recipient: HexBinary, amount: u128, hook: Option<String>, metadata: Option<HexBinary> },
}
fn ex(s: &mut Store, k: K, who: &str, funds: Vec<Coin>, m: M) -> Option<Response> {
    use hpl_interface::warp::{cw20 as c, native as n};
    if k.cw20 {
        let m = match m {
            M::Router(x) => c::ExecuteMsg::Router(x),
            M::Connection(x) => c::ExecuteMsg::Connection(x),
            M::Handle(x) => c::ExecuteMsg::Handle(x),
            M::Transfer { dest, recipient, amount, hook, metadata } => c::ExecuteMsg::TransferRemote { dest_domain: dest, recipient, amount: amount.into(), hook, metadata },
        };
        tx(s, &Q::none(), |d| wc::execute(d, env(), info(who, funds), m))
    } else {
        let m = match m {
            M::Router(x) => n::ExecuteMsg::Router(x),
            M::Connection(x) => n::ExecuteMsg::Connection(x),
            M::Handle(x) => n::ExecuteMsg::Handle(x),
            M::Transfer { dest, recipient, amount, hook, metadata } => n::ExecuteMsg::TransferRemote { dest_domain: dest, recipient, amount: amount.into(), hook, metadata },
        };
        tx(s, &Q::none(), |d| wn::execute(d, env(), info(who, funds), m))
    }
}
enum Qm {
    Router(RouterQuery<HexBinary>),
    Connection(ConnectionQueryMsg),
    Token(TokenWarpDefaultQueryMsg),
    Ism,
}
fn ask<T: serde::de::DeserializeOwned>(s: &Store, k: K, m: Qm) -> Option<T> {
    use hpl_interface::warp::{cw20 as c, native as n};
    if k.cw20 {
        let m = match m {
            Qm::Router(x) => c::QueryMsg::Router(x),
            Qm::Connection(x) => c::QueryMsg::Connection(x),
            Qm::Token(x) => c::QueryMsg::TokenDefault(x),
            Qm::Ism => c::QueryMsg::IsmSpecifier(IsmSpecifierQueryMsg::InterchainSecurityModule()),
        };
        qry(s, &Q::none(), |d| wc::query(d, env(), m))
    } else {
        let m = match m {
            Qm::Router(x) => n::QueryMsg::Router(x),
            Qm::Connection(x) => n::QueryMsg::Connection(x),
            Qm::Token(x) => n::QueryMsg::TokenDefault(x),
            Qm::Ism => n::QueryMsg::IsmSpecifier(IsmSpecifierQueryMsg::InterchainSecurityModule()),
        };
        qry(s, &Q::none(), |d| wn::query(d, env(), m))
    }
}
fn enroll(s: &mut Store, k: K, domain: u32, router: Option<&[u8]>) {
    let set = DomainRouteSet { domain, route: router.map(|x| HexBinary::from(x)) };
    sym::check(ex(s, k, "owner", vec![], M::Router(RouterMsg::SetRoute { set })).is_some(), "the owner enrolls routers");
}
fn same_store(a: &Store, b: &Store) -> bool {
    a.kv.len() == b.kv.len() && a.kv == b.kv
}

// ------------------------------------------------------- decoding of effects

/// what a message moves
enum Move<'a> {
    /// mint to the contract itself
    MintSelf(u128),
    /// mint to somebody (cw20)
    Mint(String, u128),
    /// burn what the contract holds
    Burn(u128),
    /// send / transfer to
    Send(String, u128),
    /// pull from somebody into the contract (cw20)
    Pull(String, u128),
    Dispatch(DispatchMsg, &'a Vec<Coin>),
}
/// one length-delimited protobuf field at the start of `b`
fn pb_field(b: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
    if b.len() < 2 || b[0] != tag || b[1] >= 128 || b.len() < 2 + b[1] as usize {
        return None;
    }
    let n = 2 + b[1] as usize;
    Some((&b[2..n], &b[n..]))
}
/// tokenfactory mint / burn: { sender, coin { denom, amount } }
fn factory(value: &Binary, token: &str) -> Option<u128> {
    let (sender, rest) = pb_field(value.as_slice(), 10)?;
    let (coin, end) = pb_field(rest, 18)?;
    let (denom, rest) = pb_field(coin, 10)?;
    let (amount, end2) = pb_field(rest, 18)?;
    if sender != SELF.as_bytes() || denom != token.as_bytes() || !end.is_empty() || !end2.is_empty() {
        return None;
    }
    std::str::from_utf8(amount).ok()?.parse().ok()
}
fn decode<'a>(k: K, m: &'a CosmosMsg) -> Option<Move<'a>> {
    if let Some((to, msg, funds)) = wasm_exec(m) {
        if k.cw20 && seq(to, k.token()) {
            if !funds.is_empty() {
                return None;
            }
            return match from_json::<Cw20ExecuteMsg>(msg).ok()? {
                Cw20ExecuteMsg::Mint { recipient, amount } => Some(Move::Mint(recipient, amount.u128())),
                Cw20ExecuteMsg::Transfer { recipient, amount } => Some(Move::Send(recipient, amount.u128())),
                Cw20ExecuteMsg::Burn { amount } => Some(Move::Burn(amount.u128())),
                Cw20ExecuteMsg::TransferFrom { owner, recipient, amount } if seq(&recipient, SELF) => Some(Move::Pull(owner, amount.u128())),
                _ => None,
            };
        }
        if seq(to, "mailbox") {
            return match from_json::<hpl_interface::core::mailbox::ExecuteMsg>(msg).ok()? {
                hpl_interface::core::mailbox::ExecuteMsg::Dispatch(d) => Some(Move::Dispatch(d, funds)),
                _ => None,
            };
        }
        return None;
    }
    if k.cw20 {
        return None;
    }
    if let Some((to, c)) = bank_send(m) {
        if c.len() == 1 && seq(&c[0].denom, k.token()) {
            return Some(Move::Send(to.to_string(), c[0].amount.u128()));
        }
        return None;
    }
    if let CosmosMsg::Stargate { type_url, value } = m {
        let a = factory(value, k.token())?;
        return match type_url.as_str() {
            "/osmosis.tokenfactory.v1beta1.MsgMint" => Some(Move::MintSelf(a)),
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => Some(Move::Burn(a)),
            _ => None,
        };
    }
    None
}
/// The tokens delivered by a handled message: (recipient, amount).
fn delivered(k: K, r: &Response) -> (String, u128) {
    let m = msgs(r);
    if !k.cw20 && k.bridged {
        sym::check(m.len() == 2, "one mint and one transfer");
        let a = match decode(k, m[0]) {
            Some(Move::MintSelf(a)) => a,
            _ => {
                sym::fail("tokens are minted by the route");
                0
            }
        };
        let Some(Move::Send(to, b)) = decode(k, m[1]) else {
            sym::fail("minted tokens are sent on");
            return (String::new(), 0);
        };
        sym::check(a == b, "exactly the delivered amount is minted");
        return (to, b);
    }
    sym::check(m.len() == 1, "one transfer");
    match decode(k, m[0]) {
        Some(Move::Mint(to, a)) if k.bridged => (to, a),
        Some(Move::Send(to, a)) if !k.bridged => (to, a),
        _ => {
            sym::fail("tokens are minted by a bridged and released by a collateral route");
            (String::new(), 0)
        }
    }
}
fn local(hrp: &str, raw: &[u8]) -> String {
    let z = raw[..12].iter().fold(0u8, |a, b| a | *b) == 0;
    bech(hrp, if z { &raw[12..] } else { raw })
}

// -------------------------------------------------------------- W01 incoming

fn w01<const N: usize>(k: K, hrp: &str) {
    let mut s = setup(k, hrp);
    let router: [u8; 32] = sym::bytes("router");
    let origin = sym::u32_("origin");
    enroll(&mut s, k, origin, Some(&router));
    let body: [u8; N] = sym::bytes("body");
    let before = s.clone();
    let m = HandleMsg { origin, sender: router.to_vec().into(), body: body.to_vec().into() };
    let r = ex(&mut s, k, "mailbox", vec![], M::Handle(m));
    let fits = body[32..48].iter().fold(0u8, |a, b| a | *b) == 0;
    let want = u128::from_be_bytes(body[48..64].try_into().unwrap());
    if !fits {
        sym::check(r.is_none(), "an amount that cannot be represented is refused");
        sym::reach("too much");
        return;
    }
    if want > 0 {
        sym::check(r.is_some(), "every authentic transfer is delivered");
    }
    let Some(r) = r else { return };
    let (to, a) = delivered(k, &r);
    sym::check(a == want, "exactly the transferred amount is delivered");
    sym::check(seq(&to, &local(hrp, &body[..32])), "the recipient named in the message receives");
    sym::check(same_store(&before, &s), "deliveries leave the configuration alone");
    sym::reach("delivered");
}
#[no_mangle]
pub extern "C-unwind" fn h_w01_native() {
    w01::<64>(kind(false), "osmo");
}
#[no_mangle]
pub extern "C-unwind" fn h_w01_cw20() {
    w01::<64>(kind(true), "osmo");
}
#[no_mangle]
pub extern "C-unwind" fn h_w01d_native() {
    w01::<67>(kind(false), "neutron");
}
#[no_mangle]
pub extern "C-unwind" fn h_w01d_cw20() {
    w01::<97>(kind(true), "neutron");
}
/// Only the mailbox may deliver, and only for the router enrolled for exactly
/// the message's origin.
#[no_mangle]
pub extern "C-unwind" fn h_w01_auth() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    let (d1, d2) = (sym::u32_("d1"), sym::u32_("d2"));
    sym::assume(d1 != d2);
    let (r1, r2): ([u8; 32], [u8; 32]) = (sym::bytes("r1"), sym::bytes("r2"));
    enroll(&mut s, k, d1, Some(&r1));
    enroll(&mut s, k, d2, Some(&r2));
    let gone = sym::flag("unenrolled");
    if gone {
        enroll(&mut s, k, d2, None);
    }
    let who = match sym::choice("who", 3) {
        0 => "mailbox".to_string(),
        1 => "owner".to_string(),
        _ => sym::name("who", 7),
    };
    let origin = sym::u32_("origin");
    let n = [32, 0, 20, 31, 33][sym::choice("sender size", 5)];
    let sender = sym::vec("sender", n);
    let mut body = vec![9u8; 32];
    body.extend_from_slice(&pad32(&[5]));
    let before = s.clone();
    let r = ex(&mut s, k, &who, vec![], M::Handle(HandleMsg { origin, sender: sender.clone().into(), body: body.into() }));
    let e1 = origin == d1 && sym::eq(&sender, &r1);
    let e2 = !gone && origin == d2 && sym::eq(&sender, &r2);
    let ok = who == "mailbox" && (e1 || e2);
    sym::check(r.is_some() == ok, "transfers are accepted exactly from the mailbox and the router enrolled for the origin");
    if ok {
        sym::reach("authentic");
    } else {
        sym::check(same_store(&before, &s), "a refused call changes nothing");
        sym::reach("refused");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_w01_short() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    enroll(&mut s, k, 7, Some(&[1; 32]));
    let n = [0, 1, 31, 32, 33, 63][sym::choice("size", 6)];
    let m = HandleMsg { origin: 7, sender: vec![1; 32].into(), body: sym::vec("body", n).into() };
    sym::check(ex(&mut s, k, "mailbox", vec![], M::Handle(m)).is_none(), "a truncated transfer is refused");
    sym::reach("short");
}

// -------------------------------------------------------------- W02 outgoing

struct T {
    dest: u32,
    recipient: Vec<u8>,
    amount: u128,
    hook: Option<String>,
    metadata: Option<HexBinary>,
}
/// the effects of an accepted transfer
fn sent(k: K, r: &Response, who: &str, funds: &[Coin], t: &T, router: &[u8], conn: &Option<String>) -> DispatchMsg {
    let m = msgs(r);
    let mut i = 0;
    if k.cw20 {
        let Some(Some(Move::Pull(from, a))) = m.first().map(|x| decode(k, x)) else {
            sym::fail("the tokens are collected first");
            unreachable!()
        };
        sym::check(seq(&from, who), "the tokens are collected from the sender");
        sym::check(a == t.amount, "exactly the transferred amount is collected");
        i += 1;
    }
    let mut burned = None;
    let mut disp = None;
    while i < m.len() {
        match decode(k, m[i]) {
            Some(Move::Burn(a)) if burned.is_none() => burned = Some(a),
            Some(Move::Dispatch(d, f)) if disp.is_none() => disp = Some((d, f)),
            _ => sym::fail("nothing but the burn and the dispatch"),
        }
        i += 1;
    }
    match burned {
        Some(b) => sym::check(k.bridged && b == t.amount, "a bridged route burns exactly the transferred amount"),
        None => sym::check(!k.bridged, "a bridged route burns what it sends"),
    }
    let Some((d, f)) = disp else {
        sym::fail("the transfer is dispatched");
        unreachable!()
    };
    sym::check(d.dest_domain == t.dest, "dispatched to the destination");
    sym::check(sym::eq(&d.recipient_addr, router), "dispatched to the router enrolled for the destination");
    let mut body = t.recipient.clone();
    body.extend_from_slice(&pad32(&t.amount.to_be_bytes()));
    sym::check(sym::eq(&d.msg_body, &body), "the message carries the recipient and the amount");
    let hook = if t.hook.is_some() { &t.hook } else { conn };
    sym::check(d.hook.is_some() == hook.is_some() && seq(d.hook.as_deref().unwrap_or(""), hook.as_deref().unwrap_or("")), "the chosen hook, or the configured one, is used");
    sym::check(d.metadata == t.metadata, "the hook metadata is passed on");
    let mut rest = funds.to_vec();
    if !k.cw20 {
        for c in rest.iter_mut() {
            if c.denom == k.token() {
                c.amount = Uint128::new(c.amount.u128().wrapping_sub(t.amount));
            }
        }
    }
    sym::check(same_coins(f, &rest, &[k.token(), "aother", "zother"]), "all other funds go with the dispatch");
    d
}
fn hooks(s: &mut Store, k: K) -> (Option<String>, Option<String>) {
    let mut conn = None;
    if sym::flag("configured hook") {
        let c = sym::name("conn", 6);
        sym::check(ex(s, k, "owner", vec![], M::Connection(ConnectionMsg::SetHook { hook: c.clone() })).is_some(), "the owner sets the hook");
        conn = Some(c);
    }
    let h = match sym::choice("hook", 3) {
        0 => None,
        1 => Some(sym::name("hook", 6)),
        _ => Some("!bad".to_string()),
    };
    (conn, h)
}
fn funds(k: K, n: usize) -> Vec<Coin> {
    let a = |x: &str| sym::u128_(x);
    match sym::choice("funds", n) {
        0 => vec![],
        1 => vec![coin_(a("sent"), k.token())],
        2 => vec![coin_(a("other"), "aother"), coin_(a("sent"), k.token())],
        3 => vec![coin_(a("other"), "aother")],
        4 => vec![coin_(a("sent"), k.token()), coin_(a("other"), "zother")],
        _ => vec![coin_(a("other"), "aother"), coin_(a("sent"), k.token()), coin_(a("other2"), "zother")],
    }
}
fn w02(k: K, nf: usize, md: usize) {
    let mut s = setup(k, "osmo");
    let router: [u8; 32] = sym::bytes("router");
    enroll(&mut s, k, 7, Some(&router));
    let (conn, hook) = hooks(&mut s, k);
    let metadata = if sym::flag("metadata") { Some(HexBinary::from(sym::vec("metadata", md))) } else { None };
    let t = T { dest: 7, recipient: sym::vec("recipient", 32), amount: sym::u128_("amount"), hook, metadata };
    let who = sym::name("sender", 6);
    let f = funds(k, nf);
    let before = s.clone();
    let m = M::Transfer { dest: t.dest, recipient: t.recipient.clone().into(), amount: t.amount, hook: t.hook.clone(), metadata: t.metadata.clone() };
    let r = ex(&mut s, k, &who, f.clone(), m);
    let bad_hook = t.hook.as_deref() == Some("!bad");
    let covered = k.cw20 || amt(&f, k.token()) >= t.amount;
    if bad_hook || !covered {
        sym::check(r.is_none(), "an uncovered transfer or an invalid hook is refused");
        sym::reach("refused");
        return;
    }
    if t.amount > 0 {
        sym::check(r.is_some(), "a covered transfer is accepted");
    }
    let Some(r) = r else { return };
    sent(k, &r, &who, &f, &t, &router, &conn);
    sym::check(same_store(&before, &s), "transfers leave the configuration alone");
    sym::reach("sent");
}
#[no_mangle]
pub extern "C-unwind" fn h_w02_native() {
    w02(kind(false), 4, 1);
}
#[no_mangle]
pub extern "C-unwind" fn h_w02_cw20() {
    w02(kind(true), 2, 1);
}
#[no_mangle]
pub extern "C-unwind" fn h_w02d_native() {
    w02(kind(false), 6, 52);
}
#[no_mangle]
pub extern "C-unwind" fn h_w02d_cw20() {
    w02(kind(true), 6, 52);
}
/// A recipient that is not 32 bytes would shift the amount in the message.
#[no_mangle]
pub extern "C-unwind" fn h_w02_recipient() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    enroll(&mut s, k, 7, Some(&[3; 32]));
    let n = [0, 1, 20, 31, 33, 64, 96][sym::choice("size", 7)];
    let m = M::Transfer { dest: 7, recipient: sym::vec("recipient", n).into(), amount: 5, hook: None, metadata: None };
    let f = if k.cw20 { vec![] } else { vec![coin_(5, k.token())] };
    sym::check(ex(&mut s, k, "alice", f, m).is_none(), "a recipient that is not 32 bytes long is refused");
    sym::reach("refused");
}
/// The destination decides the router; unknown or removed destinations fail.
#[no_mangle]
pub extern "C-unwind" fn h_w02_route() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    let (d1, d2, dest) = (sym::u32_("d1"), sym::u32_("d2"), sym::u32_("dest"));
    sym::assume(d1 != d2);
    let (r1, r2): ([u8; 32], [u8; 32]) = (sym::bytes("r1"), sym::bytes("r2"));
    enroll(&mut s, k, d1, Some(&r1));
    enroll(&mut s, k, d2, Some(&[8; 32]));
    let gone = sym::flag("unenrolled");
    enroll(&mut s, k, d2, if gone { None } else { Some(&r2) });
    let t = T { dest, recipient: vec![4; 32], amount: 9, hook: None, metadata: None };
    let f = if k.cw20 { vec![] } else { vec![coin_(10, k.token())] };
    let r = ex(&mut s, k, "alice", f.clone(), M::Transfer { dest, recipient: t.recipient.clone().into(), amount: 9, hook: None, metadata: None });
    let router = if dest == d1 {
        Some(r1)
    } else if dest == d2 && !gone {
        Some(r2)
    } else {
        None
    };
    sym::check(r.is_some() == router.is_some(), "exactly enrolled destinations can be reached");
    match router {
        Some(x) => {
            sent(k, &r.unwrap(), "alice", &f, &t, &x, &None);
            sym::reach("known");
        }
        None => sym::reach("unknown"),
    }
}

// --------------------------------------------------------- W03 configuration

fn mode_token(s: &Store, k: K) -> Option<String> {
    let r: TokenTypeResponse = ask(s, k, Qm::Token(TokenWarpDefaultQueryMsg::TokenType {}))?;
    match r.typ {
        TokenType::Native(TokenTypeNative::Fungible { denom }) if !k.cw20 => Some(denom),
        TokenType::CW20 { contract } if k.cw20 => Some(contract),
        _ => {
            sym::fail("the reported token type is that of the contract");
            None
        }
    }
}
/// Instantiation: a bridged route creates its own token, of which it alone is
/// the minter; a collateral route uses the given one.
#[no_mangle]
pub extern "C-unwind" fn h_w03_init() {
    let k = kind(sym::flag("cw20"));
    let mut s = Store::new();
    let owner = ["own", "!own"][sym::choice("owner", 2)];
    let mailbox = ["mailbox", "!mail"][sym::choice("mailbox", 2)];
    let r = instantiate(&mut s, k, "osmo", owner, mailbox);
    let ok = owner == "own" && mailbox == "mailbox";
    sym::check(r.is_some() == ok, "owner and mailbox must be valid addresses");
    let Some(r) = r else {
        sym::reach("invalid");
        return;
    };
    if !k.bridged {
        sym::check(r.messages.is_empty(), "a collateral route creates nothing");
        sym::check(mode_token(&s, k).as_deref() == Some(k.token()), "a collateral route bridges the given token");
    } else {
        sym::check(r.messages.len() == 1, "one creation");
        let sub = &r.messages[0];
        sym::check(sub.reply_on == ReplyOn::Success || sub.reply_on == ReplyOn::Always, "the created token is reported back");
        sym::check(mode_token(&s, k).is_none(), "no token before its creation");
        match &sub.msg {
            CosmosMsg::Wasm(WasmMsg::Instantiate { code_id, msg, funds, .. }) if k.cw20 => {
                sym::check(*code_id == 17 && funds.is_empty(), "the given code is instantiated");
                let m: hpl_interface::warp::cw20::Cw20InitMsg = from_json(msg).unwrap();
                let min = m.mint.expect("a minter");
                sym::check(min.minter == SELF && min.cap.is_none(), "the route is the minter of its token");
                sym::check(m.name == "token" && m.symbol == "TOK" && m.decimals == 6 && m.initial_balances.is_empty(), "the token is as configured");
            }
            CosmosMsg::Stargate { type_url, value } if !k.cw20 => {
                sym::check(type_url == "/osmosis.tokenfactory.v1beta1.MsgCreateDenom", "a denomination is created");
                let (a, rest) = pb_field(value, 10).expect("sender");
                let (b, end) = pb_field(rest, 18).expect("sub denomination");
                sym::check(a == SELF.as_bytes() && b == b"uwarp" && end.is_empty(), "the route creates its own denomination");
            }
            _ => sym::fail("the token is created"),
        }
        sym::check(reply(&mut s, k, sub.id, Some(pb1(k.token()))).is_some(), "the created token is accepted");
        sym::check(mode_token(&s, k).as_deref() == Some(k.token()), "the created token is bridged");
    }
    let m: TokenModeResponse = ask(&s, k, Qm::Token(TokenWarpDefaultQueryMsg::TokenMode {})).unwrap();
    sym::check((m.mode == TokenMode::Bridged) == k.bridged, "the reported mode is the configured one");
    sym::reach("valid");
}
/// The metadata given for the new denomination is registered for it.
#[no_mangle]
pub extern "C-unwind" fn h_w03_meta() {
    use hpl_interface::warp::native as n;
    let mut s = Store::new();
    let exp = sym::u8_("exponent") & 15;
    let md = n::Metadata {
        description: sym::name("desc", 3),
        denom_units: vec![n::DenomUnit { denom: "base".into(), exponent: exp as u32 + 1, aliases: vec!["al".into()] }],
        base: sym::name("base", 4),
        display: sym::name("display", 5),
        name: sym::name("name", 6),
        symbol: sym::name("symbol", 2),
    };
    let m = n::InstantiateMsg {
        token: TokenModeMsg::Bridged(n::NativeModeBriged { denom: "uwarp".into(), metadata: Some(md.clone()) }),
        hrp: "osmo".into(),
        owner: "owner".into(),
        mailbox: "mailbox".into(),
    };
    let r = tx(&mut s, &Q::none(), |d| wn::instantiate(d, env(), info("deployer", vec![]), m)).expect("instantiation succeeds");
    let mut found = 0;
    for sub in r.messages.iter() {
        let CosmosMsg::Stargate { type_url, value } = &sub.msg else { continue };
        if type_url != "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" {
            continue;
        }
        found += 1;
        let (who, rest) = pb_field(value, 10).expect("sender");
        let (meta, end) = pb_field(rest, 18).expect("metadata");
        sym::check(who == SELF.as_bytes() && end.is_empty(), "metadata is registered by the route");
        let mut want = vec![];
        let mut f = |v: &mut Vec<u8>, tag: u8, x: &[u8]| {
            v.push(tag);
            v.push(x.len() as u8);
            v.extend_from_slice(x);
        };
        let mut unit = vec![];
        f(&mut unit, 10, b"base");
        unit.push(16);
        unit.push(exp + 1);
        f(&mut unit, 26, b"al");
        f(&mut want, 10, md.description.as_bytes());
        f(&mut want, 18, &unit);
        f(&mut want, 26, md.base.as_bytes());
        f(&mut want, 34, md.display.as_bytes());
        f(&mut want, 42, md.name.as_bytes());
        f(&mut want, 50, md.symbol.as_bytes());
        sym::check(sym::eq(meta, &want), "the metadata is registered as given");
    }
    sym::check(found == 1 && r.messages.len() == 2, "one creation and one registration");
    sym::reach("registered");
}
/// Other replies never change the token.
#[no_mangle]
pub extern "C-unwind" fn h_w03_reply() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    let id = sym::u64_("id");
    sym::assume(id != 0);
    let before = s.clone();
    let data = match sym::choice("data", 3) {
        0 => None,
        1 => Some(pb1("evil")),
        _ => Some(sym::vec("data", 4).into()),
    };
    sym::check(reply(&mut s, k, id, data).is_none(), "unexpected replies are refused");
    sym::check(same_store(&before, &s), "unexpected replies change nothing");
    sym::reach("refused");
}
fn route_of(s: &Store, k: K, domain: u32) -> Option<HexBinary> {
    let r: RouteResponse<HexBinary> = ask(s, k, Qm::Router(RouterQuery::GetRoute { domain })).expect("an answer");
    sym::check(r.route.domain == domain, "the answer is for the domain asked about");
    r.route.route
}
fn conn(s: &Store, k: K) -> (Option<String>, Option<String>, Option<String>) {
    let h: HookResponse = ask(s, k, Qm::Connection(ConnectionQueryMsg::GetHook {})).unwrap();
    let i: IsmResponse = ask(s, k, Qm::Connection(ConnectionQueryMsg::GetIsm {})).unwrap();
    let m: MailboxResponse = ask(s, k, Qm::Connection(ConnectionQueryMsg::GetMailbox {})).unwrap();
    (h.hook, i.ism, m.mailbox)
}
/// Mailbox, module and hook are separate settings, whatever their values.
#[no_mangle]
pub extern "C-unwind" fn h_w03_conn() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    let mut w = conn(&s, k);
    for _ in 0..3 {
        let a = match sym::choice("address", 2) {
            0 => sym::name("addr", 3),
            _ => "mailbox".to_string(),
        };
        let m = match sym::choice("setting", 3) {
            0 => {
                w.0 = Some(a.clone());
                ConnectionMsg::SetHook { hook: a }
            }
            1 => {
                w.1 = Some(a.clone());
                ConnectionMsg::SetIsm { ism: a }
            }
            _ => {
                w.2 = Some(a.clone());
                ConnectionMsg::SetMailbox { mailbox: a }
            }
        };
        sym::check(ex(&mut s, k, "owner", vec![], M::Connection(m)).is_some(), "the owner configures the route");
        let g = conn(&s, k);
        for (x, y) in [(&g.0, &w.0), (&g.1, &w.1), (&g.2, &w.2)] {
            sym::check(x.is_some() == y.is_some() && seq(x.as_deref().unwrap_or(""), y.as_deref().unwrap_or("")), "each setting is the one last made");
        }
    }
    sym::reach("configured");
}
/// Only the owner enrolls routers and sets module and hook.
#[no_mangle]
pub extern "C-unwind" fn h_w03_admin() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    let (d1, d2) = (sym::u32_("d1"), sym::u32_("d2"));
    sym::assume(d1 != d2);
    let r1: [u8; 32] = sym::bytes("r1");
    enroll(&mut s, k, d1, Some(&[1; 32]));
    enroll(&mut s, k, d2, Some(&[2; 32]));
    // the settings made so far give their addresses no rights
    if sym::flag("set before") {
        for m in [
            ConnectionMsg::SetMailbox { mailbox: "known".into() },
            ConnectionMsg::SetHook { hook: "known".into() },
            ConnectionMsg::SetIsm { ism: "known".into() },
        ] {
            sym::check(ex(&mut s, k, "owner", vec![], M::Connection(m)).is_some(), "the owner configures the route");
        }
    }
    let (h0, i0, _) = conn(&s, k);
    let who = match sym::choice("who", 4) {
        0 => "owner".to_string(),
        1 => "mailbox".to_string(),
        2 => SELF.to_string(),
        _ => sym::name("who", 5),
    };
    let what = sym::choice("what", 5);
    let a = if sym::flag("valid") { sym::name("addr", 4) } else { "!addr".to_string() };
    let m = match what {
        0 => M::Router(RouterMsg::SetRoute { set: DomainRouteSet { domain: d1, route: Some(r1.to_vec().into()) } }),
        // the last entry for a domain counts
        1 => M::Router(RouterMsg::SetRoutes {
            set: vec![DomainRouteSet { domain: d1, route: Some(vec![9; 32].into()) }, DomainRouteSet { domain: d1, route: Some(r1.to_vec().into()) }],
        }),
        2 => M::Router(RouterMsg::SetRoute { set: DomainRouteSet { domain: d1, route: None } }),
        3 => M::Connection(ConnectionMsg::SetHook { hook: a.clone() }),
        _ => M::Connection(ConnectionMsg::SetIsm { ism: a.clone() }),
    };
    let before = s.clone();
    let r = ex(&mut s, k, &who, vec![], m);
    let ok = who == "owner" && (what < 3 || a != "!addr");
    sym::check(r.is_some() == ok, "only the owner configures the route, with valid addresses");
    if !ok {
        sym::check(same_store(&before, &s), "a refused call changes nothing");
        sym::reach("refused");
        return;
    }
    sym::check(r.unwrap().messages.is_empty(), "configuration moves no funds");
    let w1 = match what {
        0 | 1 => Some(r1.to_vec()),
        2 => None,
        _ => Some(vec![1; 32]),
    };
    sym::check(route_of(&s, k, d1).map(|x| x.to_vec()) == w1, "the route last set is reported");
    sym::check(route_of(&s, k, d2).map(|x| x.to_vec()) == Some(vec![2; 32]), "other routes are unaffected");
    let (h, i, _) = conn(&s, k);
    sym::check(h == if what == 3 { Some(a.clone()) } else { h0 }, "the hook last set is reported");
    sym::check(i == if what == 4 { Some(a.clone()) } else { i0.clone() }, "the security module last set is reported");
    let i: InterchainSecurityModuleResponse = ask(&s, k, Qm::Ism).unwrap();
    sym::check(i.ism.map(|x| x.into_string()) == if what == 4 { Some(a) } else { i0 }, "the mailbox is told the security module last set");
    sym::reach("configured");
}
/// A history of route changes.
#[no_mangle]
pub extern "C-unwind" fn h_w03d_routes() {
    let k = kind(sym::flag("cw20"));
    let mut s = setup(k, "osmo");
    let askd = sym::u32_("ask");
    let mut want: Option<Vec<u8>> = None;
    for _ in 0..3 {
        let d = sym::u32_("domain");
        let r = if sym::flag("set") { Some(sym::vec("router", 32)) } else { None };
        enroll(&mut s, k, d, r.as_deref());
        if d == askd {
            want = r;
        }
    }
    sym::check(route_of(&s, k, askd).map(|x| x.to_vec()) == want, "the route last set is reported");
    if want.is_some() {
        sym::reach("known");
    } else {
        sym::reach("unknown");
    }
}

// ------------------------------------------------------------- W04 round trip

/// What one route takes in, the other pays out: a transfer sent by any kind of
/// route is delivered by any kind of route with the same amount, to the
/// recipient the sender named.
fn w04(hrp: &str, md: bool) {
    let (a, b) = (kind(sym::flag("from cw20")), kind(sym::flag("to cw20")));
    let (mut sa, mut sb) = (setup(a, "osmo"), setup(b, hrp));
    let (ra, rb): ([u8; 32], [u8; 32]) = (sym::bytes("ra"), sym::bytes("rb"));
    let (da, db) = (sym::u32_("da"), sym::u32_("db"));
    enroll(&mut sa, a, db, Some(&rb));
    enroll(&mut sb, b, da, Some(&ra));
    let t = T { dest: db, recipient: sym::vec("recipient", 32), amount: sym::u128_("amount"), hook: None, metadata: if md { Some(sym::vec("md", 3).into()) } else { None } };
    sym::assume(t.amount > 0);
    let f = if a.cw20 { vec![] } else { vec![coin_(t.amount, a.token())] };
    let r = ex(&mut sa, a, "alice", f.clone(), M::Transfer { dest: db, recipient: t.recipient.clone().into(), amount: t.amount, hook: None, metadata: t.metadata.clone() });
    sym::check(r.is_some(), "a covered transfer is accepted");
    let d = sent(a, &r.unwrap(), "alice", &f, &t, &rb, &None);
    let r = ex(&mut sb, b, "mailbox", vec![], M::Handle(HandleMsg { origin: da, sender: ra.to_vec().into(), body: d.msg_body }));
    sym::check(r.is_some(), "the transfer is delivered on the other side");
    let (to, got) = delivered(b, &r.unwrap());
    sym::check(got == t.amount, "what was taken in on one side is paid out on the other");
    sym::check(seq(&to, &local(hrp, &t.recipient)), "it reaches the recipient the sender named");
    sym::reach("arrived");
}
#[no_mangle]
pub extern "C-unwind" fn h_w04_trip() {
    w04("osmo", false);
}
#[no_mangle]
pub extern "C-unwind" fn h_w04d_trip() {
    w04("neutron", true);
}
