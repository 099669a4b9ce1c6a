//! Whole deployments: two chains on which the real contracts run together,
//! with their messages executed, their queries routed, and bank and token
//! balances kept by a model of the chain.
use ::cw20::Cw20ExecuteMsg;
use cosmwasm_std::*;
use hpl_interface::core::mailbox as mb;
use hpl_interface::core::{ExpectedHandleMsg, HandleMsg};
use hpl_interface::hook::*;
use hpl_interface::ism::*;
use hpl_interface::pausable::PausableMsg;
use hpl_interface::router::*;
use hpl_interface::warp::{TokenModeMsg, TokenModeResponse};
use hpl_interface::{hook, igp, ism, warp};
use vh::*;

sym::harnesses! {
    h_e01_delivery, h_e01_forged, h_e01_quorum, h_e01d_delivery, h_e01d_forged,
    h_e02_fees, h_e02_short, h_e02_refund, h_e02d_fees,
    h_e03_supply, h_e03d_supply,
    h_e04_pause, h_e04d_pause,
    h_e05_gas, h_e05d_gas,
}

// -------------------------------------------------------------- chain model

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Mailbox,
    Merkle,
    PauseHook,
    AggHook,
    RouteHook,
    FeeHook,
    Igp,
    Oracle,
    Multisig,
    AggIsm,
    RouteIsm,
    PauseIsm,
    WarpNative,
    WarpCw20,
    /// a recipient that records what it is handed
    Receiver,
    /// a standard cw20 token (balances are kept in the bank under its address)
    Token,
}
#[derive(Clone)]
struct C {
    addr: String,
    kind: Kind,
    s: Store,
    /// the minter of a token, the security module of a receiver
    other: Option<String>,
}
#[derive(Clone)]
struct Chain {
    hrp: &'static str,
    domain: u32,
    c: Vec<C>,
    bank: Vec<(String, String, u128)>,
    /// (owner, spender): unlimited token allowances
    allow: Vec<(String, String)>,
    /// (recipient, caller, what it was handed)
    handled: Vec<(String, String, HandleMsg)>,
    /// encoded messages announced by the mailbox
    sent: Vec<Vec<u8>>,
}
struct Node<'a>(&'a Chain);
impl<'a> Querier for Node<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = from_json(bin).unwrap();
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => match self.0.query(&contract_addr, &msg) {
                Some(b) => SystemResult::Ok(ContractResult::Ok(b)),
                None => SystemResult::Ok(ContractResult::Err("query failed".into())),
            },
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = Uint128::new(self.0.bal(&address, &denom));
                let r = BalanceResponse::new(Coin { denom, amount });
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let mut r = AllBalanceResponse::default();
                for (who, denom, a) in self.0.bank.iter() {
                    if *who == address && *a > 0 {
                        r.amount.push(coin_(*a, denom));
                    }
                }
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let amount = Uint128::new(self.0.supply(&denom));
                let r = SupplyResponse::new(Coin { denom, amount });
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "model".into() }),
        }
    }
}
/// length-delimited protobuf field at the start of `b`
fn pb_field(b: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
    if b.len() < 2 || b[0] != tag || b[1] >= 128 || b.len() < 2 + b[1] as usize {
        return None;
    }
    let n = 2 + b[1] as usize;
    Some((&b[2..n], &b[n..]))
}
fn run(k: Kind, d: DepsMut, e: Env, i: MessageInfo, m: &Binary) -> Option<Response> {
    match k {
        Kind::Mailbox => hpl_mailbox::contract::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::Merkle => hpl_hook_merkle::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::PauseHook => hpl_hook_pausable::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::AggHook => hpl_hook_aggregate::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::RouteHook => hpl_hook_routing::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::FeeHook => hpl_hook_fee::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::Igp => hpl_igp::contract::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::Oracle => hpl_igp_oracle::contract::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::Multisig => hpl_ism_multisig::contract::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::AggIsm => hpl_ism_aggregate::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::RouteIsm => hpl_ism_routing::contract::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::PauseIsm => hpl_ism_pausable::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::WarpNative => hpl_warp_native::contract::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::WarpCw20 => hpl_warp_cw20::contract::execute(d, e, i, from_json(m).ok()?).ok(),
        Kind::Receiver | Kind::Token => None,
    }
}
fn init(k: Kind, d: DepsMut, e: Env, i: MessageInfo, m: &Binary) -> Option<Response> {
    match k {
        Kind::Mailbox => hpl_mailbox::contract::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::Merkle => hpl_hook_merkle::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::PauseHook => hpl_hook_pausable::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::AggHook => hpl_hook_aggregate::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::RouteHook => hpl_hook_routing::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::FeeHook => hpl_hook_fee::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::Igp => hpl_igp::contract::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::Oracle => hpl_igp_oracle::contract::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::Multisig => hpl_ism_multisig::contract::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::AggIsm => hpl_ism_aggregate::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::RouteIsm => hpl_ism_routing::contract::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::PauseIsm => hpl_ism_pausable::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::WarpNative => hpl_warp_native::contract::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::WarpCw20 => hpl_warp_cw20::contract::instantiate(d, e, i, from_json(m).ok()?).ok(),
        Kind::Receiver | Kind::Token => Some(Response::new()),
    }
}
fn ask(k: Kind, d: Deps, e: Env, m: &Binary) -> Option<Binary> {
    match k {
        Kind::Mailbox => hpl_mailbox::contract::query(d, e, from_json(m).ok()?).ok(),
        Kind::Merkle => hpl_hook_merkle::query(d, e, from_json(m).ok()?).ok(),
        Kind::PauseHook => hpl_hook_pausable::query(d, e, from_json(m).ok()?).ok(),
        Kind::AggHook => hpl_hook_aggregate::query(d, e, from_json(m).ok()?).ok(),
        Kind::RouteHook => hpl_hook_routing::query(d, e, from_json(m).ok()?).ok(),
        Kind::FeeHook => hpl_hook_fee::query(d, e, from_json(m).ok()?).ok(),
        Kind::Igp => hpl_igp::contract::query(d, e, from_json(m).ok()?).ok(),
        Kind::Oracle => hpl_igp_oracle::contract::query(d, e, from_json(m).ok()?).ok(),
        Kind::Multisig => hpl_ism_multisig::contract::query(d, e, from_json(m).ok()?).ok(),
        Kind::AggIsm => hpl_ism_aggregate::query(d, e, from_json(m).ok()?).ok(),
        Kind::RouteIsm => hpl_ism_routing::contract::query(d, e, from_json(m).ok()?).ok(),
        Kind::PauseIsm => hpl_ism_pausable::query(d, e, from_json(m).ok()?).ok(),
        Kind::WarpNative => hpl_warp_native::contract::query(d, e, from_json(m).ok()?).ok(),
        Kind::WarpCw20 => hpl_warp_cw20::contract::query(d, e, from_json(m).ok()?).ok(),
        Kind::Receiver | Kind::Token => None,
    }
}
impl Chain {
    fn new(hrp: &'static str, domain: u32) -> Chain {
        Chain { hrp, domain, c: vec![], bank: vec![], allow: vec![], handled: vec![], sent: vec![] }
    }
    /// the contract whose account is made of `k`s
    fn at(&self, k: u8) -> String {
        bech(self.hrp, &[k; 32])
    }
    fn user(&self, k: u8) -> String {
        bech(self.hrp, &[k; 20])
    }
    fn idx(&self, a: &str) -> Option<usize> {
        (0..self.c.len()).find(|i| self.c[*i].addr == a)
    }
    fn bal(&self, who: &str, denom: &str) -> u128 {
        for (w, d, a) in self.bank.iter() {
            if w == who && d == denom {
                return *a;
            }
        }
        0
    }
    fn supply(&self, denom: &str) -> u128 {
        let mut t = 0u128;
        for (_, d, a) in self.bank.iter() {
            if d == denom {
                t += *a;
            }
        }
        t
    }
    fn credit(&mut self, who: &str, denom: &str, n: u128) {
        for e in self.bank.iter_mut() {
            if e.0 == who && e.1 == denom {
                e.2 += n;
                return;
            }
        }
        self.bank.push((who.to_string(), denom.to_string(), n));
    }
    fn debit(&mut self, who: &str, denom: &str, n: u128) -> bool {
        if n == 0 {
            return true;
        }
        for e in self.bank.iter_mut() {
            if e.0 == who && e.1 == denom {
                if e.2 < n {
                    return false;
                }
                e.2 -= n;
                return true;
            }
        }
        false
    }
    fn mv(&mut self, from: &str, to: &str, c: &[Coin]) -> bool {
        for x in c {
            if !self.debit(from, &x.denom, x.amount.u128()) {
                return false;
            }
            self.credit(to, &x.denom, x.amount.u128());
        }
        true
    }
    fn add(&mut self, addr: &str, kind: Kind, m: &Binary) -> Response {
        let mut s = Store::new();
        let r = {
            let n = Node(self);
            let d = DepsMut { storage: &mut s, api: &VApi, querier: QuerierWrapper::new(&n) };
            sym::catch(|| init(kind, d, env_at(addr), info("deployer", vec![]), m))
        };
        self.c.push(C { addr: addr.to_string(), kind, s, other: None });
        let Some(Some(r)) = r else {
            sym::fail("instantiation succeeds");
            unreachable!()
        };
        r
    }
    fn query(&self, to: &str, m: &Binary) -> Option<Binary> {
        let i = self.idx(to)?;
        let c = &self.c[i];
        if c.kind == Kind::Receiver {
            let ExpectedIsmSpecifierQueryMsg::IsmSpecifier(_) = from_json(m).ok()?;
            return Some(js(&InterchainSecurityModuleResponse { ism: c.other.clone().map(Addr::unchecked) }));
        }
        let n = Node(self);
        let d = Deps { storage: &c.s, api: &VApi, querier: QuerierWrapper::new(&n) };
        sym::catch(|| ask(c.kind, d, env_at(to), m))?
    }
    fn q<T: serde::de::DeserializeOwned>(&self, to: &str, m: &impl serde::Serialize) -> Option<T> {
        self.query(to, &js(m)).map(|b| from_json(b).unwrap())
    }
    fn token(&mut self, i: usize, from: &str, m: &Binary) -> bool {
        let t = self.c[i].addr.clone();
        match from_json::<Cw20ExecuteMsg>(m) {
            Ok(Cw20ExecuteMsg::Mint { recipient, amount }) => {
                if self.c[i].other.as_deref() != Some(from) {
                    return false;
                }
                self.credit(&recipient, &t, amount.u128());
                true
            }
            Ok(Cw20ExecuteMsg::Burn { amount }) => self.debit(from, &t, amount.u128()),
            Ok(Cw20ExecuteMsg::Transfer { recipient, amount }) => self.mv(from, &recipient, &[Coin { denom: t, amount }]),
            Ok(Cw20ExecuteMsg::TransferFrom { owner, recipient, amount }) => {
                if !self.allow.iter().any(|(o, s)| *o == owner && s == from) {
                    return false;
                }
                self.mv(&owner, &recipient, &[Coin { denom: t, amount }])
            }
            _ => false,
        }
    }
    /// one contract call with everything it triggers
    fn call(&mut self, from: &str, to: &str, funds: &[Coin], m: &Binary) -> bool {
        if !self.mv(from, to, funds) {
            return false;
        }
        let Some(i) = self.idx(to) else { return false };
        let kind = self.c[i].kind;
        match kind {
            Kind::Token => return self.token(i, from, m),
            Kind::Receiver => {
                let Ok(ExpectedHandleMsg::Handle(h)) = from_json(m) else { return false };
                self.handled.push((to.to_string(), from.to_string(), h));
                return true;
            }
            _ => {}
        }
        let mut s = std::mem::take(&mut self.c[i].s);
        let r = {
            let n = Node(self);
            let d = DepsMut { storage: &mut s, api: &VApi, querier: QuerierWrapper::new(&n) };
            sym::catch(|| run(kind, d, env_at(to), info(from, funds.to_vec()), m))
        };
        self.c[i].s = s;
        let Some(Some(r)) = r else { return false };
        if kind == Kind::Mailbox {
            if let Some(x) = evattr(&r, "mailbox_dispatch", "message") {
                self.sent.push(HexBinary::from_hex(x).unwrap().to_vec());
            }
        }
        for m in msgs(&r) {
            if !self.effect(to, m) {
                return false;
            }
        }
        true
    }
    fn effect(&mut self, me: &str, m: &CosmosMsg) -> bool {
        if let Some((to, b, f)) = wasm_exec(m) {
            return self.call(me, to, f, b);
        }
        if let Some((to, c)) = bank_send(m) {
            // the chain refuses to send nothing
            for x in c {
                if x.amount.is_zero() {
                    return false;
                }
            }
            return !c.is_empty() && self.mv(me, to, c);
        }
        if let CosmosMsg::Stargate { type_url, value } = m {
            return self.factory(me, type_url, value).is_some();
        }
        false
    }
    /// tokenfactory mint and burn: { sender, coin { denom, amount } }
    fn factory(&mut self, me: &str, url: &str, value: &Binary) -> Option<()> {
        let (sender, rest) = pb_field(value.as_slice(), 10)?;
        let (coin, _) = pb_field(rest, 18)?;
        let (denom, rest) = pb_field(coin, 10)?;
        let (amount, _) = pb_field(rest, 18)?;
        let denom = String::from_utf8(denom.to_vec()).ok()?;
        let n: u128 = std::str::from_utf8(amount).ok()?.parse().ok()?;
        // only the creator of a denomination may mint and burn it
        let mut own = String::from("factory/");
        own.push_str(me);
        own.push_str("/uwarp");
        if sender != me.as_bytes() || denom != own {
            return None;
        }
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgMint" => self.credit(me, &denom, n),
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                if !self.debit(me, &denom, n) {
                    return None;
                }
            }
            _ => return None,
        }
        Some(())
    }
    /// a whole transaction: all or nothing
    fn tx(&mut self, from: &str, to: &str, funds: &[Coin], m: &impl serde::Serialize) -> bool {
        let snap = self.clone();
        if self.call(from, to, funds, &js(m)) {
            return true;
        }
        *self = snap;
        false
    }
    fn own(&mut self, to: &str, m: &impl serde::Serialize) {
        sym::check(self.tx("owner", to, &[], m), "the owner can configure the deployment");
    }
    fn process(&mut self, meta: &[u8], m: &[u8]) -> bool {
        let x = mb::ExecuteMsg::Process { metadata: meta.to_vec().into(), message: m.to_vec().into() };
        self.tx("relayer", &self.at(MAILBOX), &[], &x)
    }
    fn delivered(&self, m: &[u8]) -> bool {
        let r: Option<mb::MessageDeliveredResponse> = self.q(&self.at(MAILBOX), &mb::MailboxQueryMsg::MessageDelivered { id: keccak(m).into() }.wrap());
        r.unwrap().delivered
    }
    fn dispatch(&mut self, from: &str, funds: &[Coin], dest: u32, recipient: &[u8], body: &[u8]) -> bool {
        let x = mb::ExecuteMsg::Dispatch(mb::DispatchMsg { dest_domain: dest, recipient_addr: recipient.to_vec().into(), msg_body: body.to_vec().into(), hook: None, metadata: None });
        self.tx(from, &self.at(MAILBOX), funds, &x)
    }
}
const MAILBOX: u8 = 1;
const MERKLE: u8 = 2;
const PAUSE: u8 = 3;
const MULTISIG: u8 = 4;
const AGG: u8 = 5;
const ROUTE: u8 = 6;
const RECV: u8 = 7;
const IGP: u8 = 8;
const ORACLE: u8 = 9;
const FEE: u8 = 10;
const WARP: u8 = 11;
const TOKEN: u8 = 12;
const ALICE: u8 = 33;

fn mailbox(c: &mut Chain) {
    let m = mb::InstantiateMsg { hrp: c.hrp.into(), owner: "owner".into(), domain: c.domain };
    c.add(&c.at(MAILBOX), Kind::Mailbox, &js(&m));
}
fn set_hooks(c: &mut Chain, required: u8, default: u8) {
    let (r, d) = (c.at(required), c.at(default));
    c.own(&c.at(MAILBOX), &mb::ExecuteMsg::SetRequiredHook { hook: r });
    c.own(&c.at(MAILBOX), &mb::ExecuteMsg::SetDefaultHook { hook: d });
}
fn set_ism(c: &mut Chain, ism: u8) {
    let a = c.at(ism);
    c.own(&c.at(MAILBOX), &mb::ExecuteMsg::SetDefaultIsm { ism: a });
}
fn merkle(c: &mut Chain) {
    let m = hook::merkle::InstantiateMsg { mailbox: c.at(MAILBOX) };
    c.add(&c.at(MERKLE), Kind::Merkle, &js(&m));
}
fn pause_hook(c: &mut Chain) {
    c.add(&c.at(PAUSE), Kind::PauseHook, &js(&hook::pausable::InstantiateMsg { owner: "owner".into(), paused: false }));
}
fn pause_ism(c: &mut Chain) {
    c.add(&c.at(PAUSE), Kind::PauseIsm, &js(&ism::pausable::InstantiateMsg { owner: "owner".into(), paused: false }));
}
fn receiver(c: &mut Chain, ism: Option<u8>) {
    let a = c.at(RECV);
    c.add(&a, Kind::Receiver, &js(&Empty {}));
    let i = c.idx(&a).unwrap();
    c.c[i].other = ism.map(|x| c.at(x));
}

// --------------------------------------------------------- E01 authenticity

/// Digest the validators sign, from the protocol specification.
fn digest(origin: u32, tree: &[u8], root: &[u8], index: u32, id: &[u8]) -> Vec<u8> {
    let mut d = origin.to_be_bytes().to_vec();
    d.extend_from_slice(tree);
    d.extend_from_slice(b"HYPERLANE");
    let mut c = keccak(&d);
    c.extend_from_slice(root);
    c.extend_from_slice(&index.to_be_bytes());
    c.extend_from_slice(id);
    let mut e = b"\x19Ethereum Signed Message:\n32".to_vec();
    e.extend_from_slice(&keccak(&c));
    keccak(&e)
}
fn signer(digest: &[u8], sig: &[u8]) -> Vec<u8> {
    let p = recover_model(digest, &sig[..64], sig[64].wrapping_sub(27));
    keccak(&p[1..])[12..].to_vec()
}
fn signature() -> Vec<u8> {
    let mut x = sym::vec("sig", 64);
    x.push(27 + (sym::u8_("recid") & 1));
    x
}
/// the sending chain: a tree of all messages
fn origin(domain: u32) -> Chain {
    let mut a = Chain::new("osmo", domain);
    mailbox(&mut a);
    merkle(&mut a);
    pause_hook(&mut a);
    set_hooks(&mut a, MERKLE, PAUSE);
    a
}
/// How the receiving chain verifies.
#[derive(Clone, Copy)]
enum Via {
    /// default module: the multisig itself
    Plain,
    /// recipient's own module: routing to the multisig
    Routed,
    /// default module: multisig and an unpaused emergency module
    Both,
}
fn destination(domain: u32, from: u32, via: Via, validators: &[Vec<u8>], threshold: u8) -> Chain {
    let mut b = Chain::new("neutron", domain);
    mailbox(&mut b);
    b.add(&b.at(MULTISIG), Kind::Multisig, &js(&ism::multisig::InstantiateMsg { owner: "owner".into() }));
    let v = validators.iter().map(|x| HexBinary::from(x.clone())).collect();
    b.own(&b.at(MULTISIG), &ism::multisig::ExecuteMsg::SetValidators { domain: from, threshold, validators: v });
    pause_ism(&mut b);
    match via {
        Via::Plain => {
            receiver(&mut b, None);
            set_ism(&mut b, MULTISIG);
        }
        Via::Routed => {
            receiver(&mut b, Some(ROUTE));
            let m = ism::routing::InstantiateMsg { owner: "owner".into(), isms: vec![ism::routing::IsmSet { domain: from, address: b.at(MULTISIG) }] };
            b.add(&b.at(ROUTE), Kind::RouteIsm, &js(&m));
            set_ism(&mut b, PAUSE);
        }
        Via::Both => {
            receiver(&mut b, None);
            let m = ism::aggregate::InstantiateMsg { owner: "owner".into(), isms: vec![b.at(MULTISIG), b.at(PAUSE)], threshold: 2 };
            b.add(&b.at(AGG), Kind::AggIsm, &js(&m));
            set_ism(&mut b, AGG);
        }
    }
    b
}
/// metadata as the chosen module wants it, around the multisig's
fn wrap(via: Via, m: &[u8]) -> Vec<u8> {
    match via {
        Via::Both => {
            let mut r = vec![];
            for (x, y) in [(16, 16 + m.len()), (16 + m.len(), 16 + m.len())] {
                r.extend_from_slice(&(x as u32).to_be_bytes());
                r.extend_from_slice(&(y as u32).to_be_bytes());
            }
            r.extend_from_slice(m);
            r
        }
        _ => m.to_vec(),
    }
}
fn via() -> Via {
    [Via::Plain, Via::Routed, Via::Both][sym::choice("via", 3)]
}
struct Signed {
    message: Vec<u8>,
    tree: Vec<u8>,
    root: Vec<u8>,
    index: u32,
}
impl Signed {
    fn digest(&self, origin: u32) -> Vec<u8> {
        digest(origin, &self.tree, &self.root, self.index, &keccak(&self.message))
    }
    fn meta(&self, sigs: &[Vec<u8>]) -> Vec<u8> {
        let mut m = self.tree.clone();
        m.extend_from_slice(&self.root);
        m.extend_from_slice(&self.index.to_be_bytes());
        for s in sigs {
            m.extend_from_slice(s);
        }
        m
    }
}
/// dispatches a message and reads the checkpoint its validators sign
fn checkpoint(a: &mut Chain, dest: u32, n: usize) -> (Signed, Vec<u8>) {
    let alice = sym::vec("alice", 20);
    let body = sym::vec("body", n);
    let from = bech(a.hrp, &alice);
    sym::check(a.dispatch(&from, &[], dest, &[RECV; 32], &body), "a message can be dispatched");
    let message = a.sent.last().unwrap().clone();
    let r: hook::merkle::CheckPointResponse = a.q(&a.at(MERKLE), &hook::merkle::QueryMsg::MerkleHook(hook::merkle::MerkleHookQueryMsg::CheckPoint {})).unwrap();
    // the reported count is the index of the last leaf
    let s = Signed { message, tree: vec![MERKLE; 32], root: r.root.to_vec(), index: r.count };
    let mut want = pad32(&alice).to_vec();
    want.extend_from_slice(&body);
    (s, want)
}
fn e01(k: usize, n: usize, t: usize) {
    let (da, db) = (sym::u32_("da"), sym::u32_("db"));
    let mut a = origin(da);
    let mut all = vec![];
    for _ in 0..k {
        all.push(checkpoint(&mut a, db, 3));
    }
    let sigs: Vec<Vec<Vec<u8>>> = all.iter().map(|_| (0..t).map(|_| signature()).collect()).collect();
    // the validators sign every checkpoint
    let vals: Vec<Vec<u8>> = (0..n).map(|_| sym::vec("validator", 20)).collect();
    for i in 0..n {
        for j in 0..i {
            sym::assume(!sym::eq(&vals[i], &vals[j]));
        }
    }
    for (i, (s, _)) in all.iter().enumerate() {
        for j in 0..t {
            sym::assume(sym::eq(&signer(&s.digest(da), &sigs[i][j]), &vals[j]));
        }
    }
    let via = via();
    let mut b = destination(db, da, via, &vals, t as u8);
    let mut seen = 0;
    for x in 0..k {
        // in any order
        let i = if k == 2 && sym::flag("swap") { 1 - x } else { x };
        let (s, want) = &all[i];
        let again = b.delivered(&s.message);
        let r = b.process(&wrap(via, &s.meta(&sigs[i])), &s.message);
        sym::check(r == !again, "a dispatched message signed by the validators is delivered, exactly once");
        if again {
            sym::reach("replay");
            continue;
        }
        seen += 1;
        sym::check(b.handled.len() == seen, "the recipient is handed the message once");
        let (to, by, h) = b.handled.last().unwrap();
        sym::check(seq(to, &b.at(RECV)) && seq(by, &b.at(MAILBOX)), "the mailbox hands the message to the recipient");
        sym::check(h.origin == da, "the recipient learns the origin");
        sym::check(sym::eq(h.sender.as_slice(), &want[..32]), "the recipient learns the sender");
        sym::check(sym::eq(h.body.as_slice(), &want[32..]), "the recipient gets the body as sent");
        sym::check(b.delivered(&s.message), "the message is reported as delivered");
        sym::check(!b.process(&wrap(via, &s.meta(&sigs[i])), &s.message), "a delivered message cannot be delivered again");
        sym::check(b.handled.len() == seen, "a replay reaches nobody");
        sym::reach("delivered");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_e01_delivery() {
    e01(2, 2, 1 + sym::choice("threshold", 2));
}
#[no_mangle]
pub extern "C-unwind" fn h_e01d_delivery() {
    e01(2, 3, 3);
}
/// Nothing but the signed message gets through: no other message, with no
/// metadata whatsoever, as long as no validator signed it.
fn forged(n: usize, t: usize, len: usize) {
    let (da, db) = (sym::u32_("da"), sym::u32_("db"));
    let w = wire(3, sym::u32_("nonce"), da, &sym::bytes("sender"), db, &[RECV; 32], &sym::vec("body", len));
    let s = Signed { message: w, tree: sym::vec("tree", 32), root: sym::vec("root", 32), index: sym::u32_("index") };
    let sigs: Vec<Vec<u8>> = (0..t).map(|_| signature()).collect();
    let vals: Vec<Vec<u8>> = (0..n).map(|_| sym::vec("validator", 20)).collect();
    let via = via();
    let mut b = destination(db, da, via, &vals, t as u8);
    let first = sym::flag("after delivery");
    if first {
        for j in 0..t {
            sym::assume(sym::eq(&signer(&s.digest(da), &sigs[j]), &vals[j]));
        }
        for j in 1..t {
            sym::assume(!sym::eq(&vals[0], &vals[j]));
        }
        sym::check(b.process(&wrap(via, &s.meta(&sigs)), &s.message), "the signed message is delivered");
    }
    // to the same recipient: everything else about the message is arbitrary
    let mut m = sym::vec("other message", 77 + len);
    m[45..77].copy_from_slice(&[RECV; 32]);
    sym::assume(!sym::eq(&m, &s.message));
    let header = sym::vec("other header", 68);
    let f = Signed { message: m.clone(), tree: header[..32].to_vec(), root: header[32..64].to_vec(), index: u32::from_be_bytes(header[64..].try_into().unwrap()) };
    let origin = u32::from_be_bytes(m[5..9].try_into().unwrap());
    let fs: Vec<Vec<u8>> = (0..t).map(|i| if first && sym::flag("reuse") { sigs[i].clone() } else { signature() }).collect();
    // no validator signed this message
    for x in &fs {
        let w = signer(&f.digest(origin), x);
        for v in &vals {
            sym::assume(!sym::eq(&w, v));
        }
    }
    sym::check(!b.process(&wrap(via, &f.meta(&fs)), &m), "a message no validator signed is never delivered");
    sym::check(b.handled.len() == first as usize, "a forged message reaches nobody");
    sym::check(!b.delivered(&m), "a forged message is not reported as delivered");
    sym::reach("refused");
}
#[no_mangle]
pub extern "C-unwind" fn h_e01_forged() {
    forged(1, 1, 1);
}
#[no_mangle]
pub extern "C-unwind" fn h_e01d_forged() {
    forged(2, 2, 2);
}
/// Too few validators cannot deliver anything.
#[no_mangle]
pub extern "C-unwind" fn h_e01_quorum() {
    let (da, db) = (sym::u32_("da"), sym::u32_("db"));
    let mut a = origin(da);
    let (s, _) = checkpoint(&mut a, db, 1);
    let sigs = [signature(), signature()];
    let vals: Vec<Vec<u8>> = (0..2).map(|_| sym::vec("validator", 20)).collect();
    sym::assume(!sym::eq(&vals[0], &vals[1]));
    // one validator signs, as often as it likes
    let d = s.digest(da);
    sym::assume(sym::eq(&signer(&d, &sigs[0]), &vals[0]));
    sym::assume(!sym::eq(&signer(&d, &sigs[1]), &vals[1]));
    let via = via();
    let mut b = destination(db, da, via, &vals, 2);
    let order = sym::choice("order", 3);
    let x = match order {
        0 => s.meta(&sigs),
        1 => s.meta(&[sigs[1].clone(), sigs[0].clone()]),
        _ => s.meta(&sigs[..1]),
    };
    sym::check(!b.process(&wrap(via, &x), &s.message), "fewer validators than the threshold deliver nothing");
    sym::check(b.handled.is_empty(), "nobody is reached");
    sym::reach("refused");
}

// --------------------------------------------------------------- E02 fees

/// 2.5 units of token per unit of gas cost
const RATE: u128 = 25_000_000_000;
/// gas used and its price (the arithmetic itself is the subject of G01)
fn gas() -> (u128, u128) {
    let g = [0, 1, 2, 250_000][sym::choice("gas", 4)];
    (g, g * 5 / 2)
}
fn num<const N: usize>(n: &str) -> u128 {
    let b: [u8; N] = sym::bytes(n);
    let mut r = [0u8; 16];
    r[..N].copy_from_slice(&b);
    u128::from_le_bytes(r)
}
/// The required hooks are the tree and the gas paymaster behind an aggregate;
/// the default hook routes to a fee hook.
fn fees(dest: u32, gas: u128, fee: Coin) -> Chain {
    let mut a = Chain::new("osmo", 5);
    mailbox(&mut a);
    merkle(&mut a);
    a.add(&a.at(ORACLE), Kind::Oracle, &js(&igp::oracle::InstantiateMsg { owner: "owner".into() }));
    let cfg = igp::oracle::RemoteGasDataConfig { remote_domain: dest, token_exchange_rate: RATE.into(), gas_price: Uint128::new(1) };
    a.own(&a.at(ORACLE), &igp::oracle::ExecuteMsg::SetRemoteGasData { config: cfg });
    let m = igp::core::InstantiateMsg { hrp: "osmo".into(), owner: "owner".into(), gas_token: "ugas".into(), beneficiary: "bene".into(), default_gas_usage: gas };
    a.add(&a.at(IGP), Kind::Igp, &js(&m));
    let o = Addr::unchecked(a.at(ORACLE));
    a.own(&a.at(IGP), &igp::core::ExecuteMsg::Router(RouterMsg::SetRoute { set: DomainRouteSet { domain: dest, route: Some(o) } }));
    let m = hook::aggregate::InstantiateMsg { owner: "owner".into(), hooks: vec![a.at(MERKLE), a.at(IGP)] };
    a.add(&a.at(AGG), Kind::AggHook, &js(&m));
    a.add(&a.at(FEE), Kind::FeeHook, &js(&hook::fee::InstantiateMsg { owner: "owner".into(), fee }));
    a.add(&a.at(ROUTE), Kind::RouteHook, &js(&hook::routing::InstantiateMsg { owner: "owner".into() }));
    let f = Addr::unchecked(a.at(FEE));
    a.own(&a.at(ROUTE), &hook::routing::ExecuteMsg::Router(RouterMsg::SetRoute { set: DomainRouteSet { domain: dest, route: Some(f) } }));
    set_hooks(&mut a, AGG, ROUTE);
    a
}
fn quote(a: &Chain, from: &str, dest: u32, body: &[u8]) -> Option<Vec<Coin>> {
    let msg = mb::DispatchMsg { dest_domain: dest, recipient_addr: vec![7; 32].into(), msg_body: body.to_vec().into(), hook: None, metadata: None };
    let r: Option<QuoteDispatchResponse> = a.q(&a.at(MAILBOX), &mb::QueryMsg::Hook(mb::MailboxHookQueryMsg::QuoteDispatch { sender: from.into(), msg }));
    r.map(|x| x.fees)
}
fn e02(denom: &str) {
    let dest = sym::u32_("dest");
    let ((gas, owed), fee) = (gas(), num::<6>("fee"));
    sym::assume(fee > 0);
    let mut a = fees(dest, gas, coin_(fee, denom));
    let from = a.user(ALICE);
    let body = sym::vec("body", 2);
    let q = quote(&a, &from, dest, &body);
    sym::check(q.is_some(), "a quote is available");
    let q = q.unwrap();
    // the quote is what the hooks ask for, together
    let want = [coin_(owed, "ugas"), coin_(fee, denom)];
    sym::check(same_coins(&q, &want, &["ugas", denom]), "the quote is the sum of what all hooks ask for");
    // alice pays exactly the quote; the chain drops empty coins
    let mut pay: Vec<Coin> = vec![];
    for c in &q {
        if c.amount.u128() > 0 {
            pay.push(c.clone());
        }
    }
    for (x, d) in [(1u128 << 60, "ugas"), (1u128 << 60, "ufee")] {
        a.credit(&from, d, x);
    }
    let before = a.clone();
    sym::check(a.dispatch(&from, &pay, dest, &[7; 32], &body), "paying exactly the quote suffices");
    sym::check(a.sent.len() == 1, "the message is dispatched");
    for d in ["ugas", "ufee"] {
        sym::check(a.bal(&from, d) == before.bal(&from, d) - amt(&q, d), "the sender pays exactly the quote");
        let paid = if d == "ugas" { owed } else { 0 };
        sym::check(a.bal(&a.at(IGP), d) == paid, "the paymaster gets the gas payment");
        let paid = if d == denom { fee } else { 0 };
        sym::check(a.bal(&a.at(FEE), d) == paid, "the fee hook gets its fee");
        sym::check(a.bal(&a.at(MAILBOX), d) == 0, "nothing gets stuck in the mailbox");
        sym::check(a.bal(&a.at(AGG), d) == 0 && a.bal(&a.at(ROUTE), d) == 0 && a.bal(&a.at(MERKLE), d) == 0, "nothing gets stuck in other hooks");
    }
    // the owners' shares can be withdrawn in full
    if owed > 0 {
        sym::check(a.tx("bene", &a.at(IGP), &[], &igp::core::ExecuteMsg::Claim {}), "the beneficiary can claim");
        sym::check(a.bal("bene", "ugas") == owed && a.bal(&a.at(IGP), "ugas") == 0, "the beneficiary receives all gas payments");
    }
    let m = hook::fee::ExecuteMsg::FeeHook(hook::fee::FeeHookMsg::Claim { recipient: None });
    sym::check(a.tx("owner", &a.at(FEE), &[], &m), "the owner can claim the fees");
    sym::check(a.bal("owner", denom) == fee && a.bal(&a.at(FEE), denom) == 0, "the owner receives all fees");
    sym::reach("paid");
}
#[no_mangle]
pub extern "C-unwind" fn h_e02_fees() {
    e02(["ufee", "ugas"][sym::choice("denom", 2)]);
}
/// Underpaying any hook by one unit fails as a whole.
#[no_mangle]
pub extern "C-unwind" fn h_e02_short() {
    let denom = ["ufee", "ugas"][sym::choice("denom", 2)];
    let dest = sym::u32_("dest");
    let ((gas, owed), fee) = (gas(), num::<6>("fee"));
    sym::assume(fee > 0);
    let mut a = fees(dest, gas, coin_(fee, denom));
    let from = a.user(ALICE);
    for d in ["ugas", "ufee"] {
        a.credit(&from, d, 1 << 60);
    }
    let (x, y) = (num::<7>("gas paid"), num::<7>("fee paid"));
    let pay = if denom == "ugas" { vec![coin_(x, "ugas")] } else { vec![coin_(y, "ufee"), coin_(x, "ugas")] };
    let enough = if denom == "ugas" { x >= owed + fee } else { sym::all(&[x >= owed, y >= fee]) };
    sym::assume(x > 0);
    sym::assume(y > 0);
    let before = a.clone();
    let r = a.dispatch(&from, &pay, dest, &[7; 32], b"body");
    if r {
        sym::check(enough, "a dispatch is refused unless every hook is paid");
        sym::check(a.bal(&a.at(IGP), "ugas") == owed, "the paymaster keeps exactly its price");
        sym::reach("paid");
    } else {
        sym::check(a.bal(&from, "ugas") == before.bal(&from, "ugas") && a.bal(&from, "ufee") == before.bal(&from, "ufee"), "a refused dispatch costs nothing");
        sym::check(a.sent.is_empty(), "a refused dispatch sends nothing");
        sym::reach("refused");
    }
}
/// gas paymaster with its oracle
fn paymaster(a: &mut Chain, dest: u32, gas: u128, token: &str) {
    a.add(&a.at(ORACLE), Kind::Oracle, &js(&igp::oracle::InstantiateMsg { owner: "owner".into() }));
    let cfg = igp::oracle::RemoteGasDataConfig { remote_domain: dest, token_exchange_rate: RATE.into(), gas_price: Uint128::new(1) };
    a.own(&a.at(ORACLE), &igp::oracle::ExecuteMsg::SetRemoteGasDataConfigs { configs: vec![cfg] });
    let m = igp::core::InstantiateMsg { hrp: a.hrp.into(), owner: "owner".into(), gas_token: token.into(), beneficiary: "bene".into(), default_gas_usage: gas };
    a.add(&a.at(IGP), Kind::Igp, &js(&m));
    let o = Addr::unchecked(a.at(ORACLE));
    a.own(&a.at(IGP), &igp::core::ExecuteMsg::Router(RouterMsg::SetRoute { set: DomainRouteSet { domain: dest, route: Some(o) } }));
}
/// gas limit and refund address
fn gas_metadata(gas: u128, refund: Option<&[u8]>) -> Vec<u8> {
    let mut m = pad32(&gas.to_be_bytes()).to_vec();
    if let Some(r) = refund {
        m.extend_from_slice(r);
    }
    m
}
/// The usual deployment: a required fee, then the gas paymaster.  Whatever is
/// paid beyond the fee and the gas comes back.
#[no_mangle]
pub extern "C-unwind" fn h_e02_refund() {
    let dest = sym::u32_("dest");
    let fee = num::<6>("fee");
    sym::assume(fee > 0);
    let denom = ["ufee", "ugas"][sym::choice("denom", 2)];
    let mut a = Chain::new("osmo", 5);
    mailbox(&mut a);
    paymaster(&mut a, dest, 10, "ugas");
    a.add(&a.at(FEE), Kind::FeeHook, &js(&hook::fee::InstantiateMsg { owner: "owner".into(), fee: coin_(fee, denom) }));
    set_hooks(&mut a, FEE, IGP);
    let from = a.user(ALICE);
    let (g, owed) = gas();
    let refund = [3u8; 20];
    let (metadata, owed, back) = match sym::choice("metadata", 3) {
        0 => (None, 25, from.clone()),
        1 => (Some(gas_metadata(g, None).into()), owed, from.clone()),
        _ => (Some(gas_metadata(g, Some(&refund)).into()), owed, bech("osmo", &refund)),
    };
    let extra = num::<6>("extra");
    for d in ["ugas", "ufee"] {
        a.credit(&from, d, 1 << 60);
    }
    let mut pay = vec![coin_(owed + extra, "ugas")];
    if denom == "ugas" {
        pay[0].amount += Uint128::new(fee);
    } else {
        pay.insert(0, coin_(fee, "ufee"));
    }
    if pay[pay.len() - 1].amount.is_zero() {
        pay.pop();
    }
    let before = a.clone();
    let x = mb::ExecuteMsg::Dispatch(mb::DispatchMsg { dest_domain: dest, recipient_addr: vec![7; 32].into(), msg_body: vec![1].into(), hook: None, metadata });
    sym::check(a.tx(&from, &a.at(MAILBOX), &pay, &x), "paying enough suffices");
    sym::check(a.bal(&a.at(IGP), "ugas") == owed, "the paymaster keeps exactly the price of the gas asked for");
    sym::check(a.bal(&a.at(FEE), denom) == fee, "the fee hook gets exactly its fee");
    let spent = owed + if denom == "ugas" { fee } else { 0 };
    if seq(&back, &from) {
        sym::check(a.bal(&from, "ugas") == before.bal(&from, "ugas") - spent, "the sender gets back what was paid too much");
        sym::reach("to sender");
    } else {
        sym::check(a.bal(&back, "ugas") == extra, "the refund address gets what was paid too much");
        sym::check(a.bal(&from, "ugas") == before.bal(&from, "ugas") - spent - extra, "the sender pays nothing else");
        sym::reach("to refund address");
    }
    sym::check(a.bal(&a.at(MAILBOX), "ugas") == 0 && a.bal(&a.at(MAILBOX), "ufee") == 0, "nothing gets stuck in the mailbox");
}
#[no_mangle]
pub extern "C-unwind" fn h_e02d_fees() {
    e02("ugas");
}

// --------------------------------------------------- E03 supply of the bridge

#[derive(Clone, Copy, PartialEq)]
struct Route {
    cw20: bool,
    bridged: bool,
}
fn denom(c: &Chain, r: Route) -> String {
    match (r.cw20, r.bridged) {
        (false, false) => "utok".to_string(),
        (false, true) => {
            let mut s = String::from("factory/");
            s.push_str(&c.at(WARP));
            s.push_str("/uwarp");
            s
        }
        _ => c.at(TOKEN),
    }
}
fn deploy(hrp: &'static str, domain: u32, r: Route, peer: u32) -> Chain {
    let mut c = Chain::new(hrp, domain);
    mailbox(&mut c);
    merkle(&mut c);
    pause_ism(&mut c);
    set_hooks(&mut c, MERKLE, MERKLE);
    set_ism(&mut c, PAUSE);
    let me = c.at(WARP);
    if r.cw20 {
        let t = c.at(TOKEN);
        c.add(&t, Kind::Token, &js(&Empty {}));
        if r.bridged {
            let i = c.idx(&t).unwrap();
            c.c[i].other = Some(me.clone());
        }
        let token = if r.bridged {
            let init_msg = warp::cw20::Cw20InitMsg { name: "token".into(), symbol: "TOK".into(), decimals: 6, initial_balances: vec![], mint: None, marketing: None };
            TokenModeMsg::Bridged(warp::cw20::Cw20ModeBridged { code_id: 17, init_msg: Box::new(init_msg) })
        } else {
            TokenModeMsg::Collateral(warp::cw20::Cw20ModeCollateral { address: t.clone() })
        };
        let m = warp::cw20::InstantiateMsg { token, hrp: hrp.into(), owner: "owner".into(), mailbox: c.at(MAILBOX) };
        c.add(&me, Kind::WarpCw20, &js(&m));
    } else {
        let token = if r.bridged {
            TokenModeMsg::Bridged(warp::native::NativeModeBriged { denom: "uwarp".into(), metadata: None })
        } else {
            TokenModeMsg::Collateral(warp::native::NativeModeCollateral { denom: "utok".into() })
        };
        let m = warp::native::InstantiateMsg { token, hrp: hrp.into(), owner: "owner".into(), mailbox: c.at(MAILBOX) };
        c.add(&me, Kind::WarpNative, &js(&m));
    }
    if r.bridged {
        // the chain reports the created token
        let d = denom(&c, r);
        let mut v = vec![10, d.len() as u8];
        v.extend_from_slice(d.as_bytes());
        let rep = Reply { id: 0, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(v.into()) }) };
        let i = c.idx(&me).unwrap();
        let mut s = std::mem::take(&mut c.c[i].s);
        let n = Node(&c);
        let dm = DepsMut { storage: &mut s, api: &VApi, querier: QuerierWrapper::new(&n) };
        let ok = if r.cw20 { hpl_warp_cw20::contract::reply(dm, env_at(&me), rep).is_ok() } else { hpl_warp_native::contract::reply(dm, env_at(&me), rep).is_ok() };
        sym::check(ok, "the created token is accepted");
        c.c[i].s = s;
    }
    let set = DomainRouteSet { domain: peer, route: Some(HexBinary::from(vec![WARP; 32])) };
    let m = RouterMsg::SetRoute { set };
    if r.cw20 {
        c.own(&me, &warp::cw20::ExecuteMsg::Router(m));
    } else {
        c.own(&me, &warp::native::ExecuteMsg::Router(m));
    }
    c
}
fn transfer(c: &mut Chain, r: Route, dest: u32, recipient: &[u8], amount: u128) -> bool {
    let from = c.user(ALICE);
    let me = c.at(WARP);
    if r.cw20 {
        let m = warp::cw20::ExecuteMsg::TransferRemote { dest_domain: dest, recipient: recipient.into(), amount: amount.into(), hook: None, metadata: None };
        c.tx(&from, &me, &[], &m)
    } else {
        let m = warp::native::ExecuteMsg::TransferRemote { dest_domain: dest, recipient: recipient.into(), amount: amount.into(), hook: None, metadata: None };
        let d = denom(c, r);
        c.tx(&from, &me, &[coin_(amount, &d)], &m)
    }
}
/// A collateral route on one chain and a bridged one on the other, through a
/// history of transfers both ways and deliveries of dispatched messages in any
/// order, with replays.
fn e03(k: usize, ra: Route, rb: Route) {
    let (da, db) = (6, 9);
    let mut a = deploy("osmo", da, ra, db);
    let mut b = deploy("neutron", db, rb, da);
    let (ta, tb) = (denom(&a, ra), denom(&b, rb));
    let total = num::<6>("fortune");
    let (ua, ub) = (a.user(ALICE), b.user(ALICE));
    let (wa, wb) = (a.at(WARP), b.at(WARP));
    a.credit(&ua, &ta, total);
    a.allow.push((ua.clone(), wa.clone()));
    b.allow.push((ub.clone(), wb.clone()));
    // messages under way: (from a, amount, delivered)
    let mut way: Vec<(bool, usize, u128, bool)> = vec![];
    for step in 0..k {
        let what = if step == 0 { 0 } else { sym::choice("what", 2 + way.len()) };
        match what {
            0 | 1 => {
                let amount = num::<6>("amount");
                sym::assume(amount > 0);
                let from_a = what == 0;
                let have = if from_a { a.bal(&ua, &ta) } else { b.bal(&ub, &tb) };
                let r = if from_a { transfer(&mut a, ra, db, &pad32(&[ALICE; 20]), amount) } else { transfer(&mut b, rb, da, &pad32(&[ALICE; 20]), amount) };
                sym::check(r == (amount <= have), "exactly what one has can be transferred");
                if r {
                    let n = if from_a { a.sent.len() } else { b.sent.len() };
                    way.push((from_a, n - 1, amount, false));
                    sym::reach("sent");
                }
            }
            _ => {
                let i = what - 2;
                let (from_a, n, amount, done) = way[i];
                let m = if from_a { a.sent[n].clone() } else { b.sent[n].clone() };
                let to = if from_a { &mut b } else { &mut a };
                let (u, t) = if from_a { (&ub, &tb) } else { (&ua, &ta) };
                let old = to.bal(u, t);
                let r = to.process(&[], &m);
                sym::check(r == !done, "every transfer is delivered exactly once, always backed by what was taken in");
                if r {
                    sym::check(to.bal(u, t) == old + amount, "the recipient receives exactly what was sent");
                    way[i].3 = true;
                    sym::reach("delivered");
                } else {
                    sym::reach("replay");
                }
            }
        }
        // the books
        let (mut ab, mut ba) = (0u128, 0u128);
        for (from_a, _, amount, done) in &way {
            if !*done {
                if *from_a {
                    ab += *amount;
                } else {
                    ba += *amount;
                }
            }
        }
        sym::check(a.bal(&wa, &ta) == b.supply(&tb) + ab + ba, "what is locked backs exactly what is minted plus what is under way");
        sym::check(b.bal(&wb, &tb) == 0, "the bridged route keeps nothing");
        sym::check(a.supply(&ta) == total, "the collateral is neither created nor destroyed");
    }
    let m: TokenModeResponse = a.q(&wa, &warp::native::QueryMsg::TokenDefault(warp::TokenWarpDefaultQueryMsg::TokenMode {})).unwrap();
    sym::check(m.mode == warp::TokenMode::Collateral, "the mode does not change");
}
fn rt(cw20: bool, bridged: bool) -> Route {
    Route { cw20, bridged }
}
#[no_mangle]
pub extern "C-unwind" fn h_e03_supply() {
    let c = sym::choice("kinds", 2);
    e03(3, rt(c == 1, false), rt(c == 0, true));
}
#[no_mangle]
pub extern "C-unwind" fn h_e03d_supply() {
    e03(4, rt(sym::flag("a cw20"), false), rt(sym::flag("b cw20"), true));
}

// --------------------------------------------------------- E04 emergency stop

/// While the hook is paused nothing leaves; while the module is paused
/// nothing arrives; after release everything goes on, nothing is lost.
#[no_mangle]
pub extern "C-unwind" fn h_e04_pause() {
    e04(2);
}
#[no_mangle]
pub extern "C-unwind" fn h_e04d_pause() {
    e04(3);
}
fn e04(k: usize) {
    let (da, db) = (sym::u32_("da"), sym::u32_("db"));
    let mut a = origin(da);
    let mut b = Chain::new("neutron", db);
    mailbox(&mut b);
    pause_ism(&mut b);
    set_ism(&mut b, PAUSE);
    receiver(&mut b, None);
    let (mut out, mut inn) = (false, false);
    let mut got = 0;
    for _ in 0..k {
        if sym::flag("hook") {
            let m = if out { PausableMsg::Release {} } else { PausableMsg::Pause {} };
            a.own(&a.at(PAUSE), &hook::pausable::ExecuteMsg::Pausable(m));
            out = !out;
        }
        if sym::flag("ism") {
            let m = if inn { PausableMsg::Release {} } else { PausableMsg::Pause {} };
            b.own(&b.at(PAUSE), &ism::pausable::ExecuteMsg::Pausable(m));
            inn = !inn;
        }
        let n = a.sent.len();
        let from = a.user(ALICE);
        let r = a.dispatch(&from, &[], db, &[RECV; 32], &sym::vec("body", 1));
        sym::check(r == !out, "messages leave exactly while the hook is not paused");
        sym::check(a.sent.len() == n + r as usize, "messages leave exactly while the hook is not paused");
        let c: hook::merkle::CountResponse = a.q(&a.at(MERKLE), &hook::merkle::QueryMsg::MerkleHook(hook::merkle::MerkleHookQueryMsg::Count {})).unwrap();
        sym::check(c.count as usize == a.sent.len(), "the tree holds exactly the messages that left");
        if r {
            let m = a.sent[n].clone();
            let ok = b.process(&[], &m);
            sym::check(ok == !inn, "messages arrive exactly while the module is not paused");
            got += ok as usize;
            sym::reach("left");
        } else {
            sym::reach("halted");
        }
        sym::check(b.handled.len() == got, "exactly the accepted messages reach the recipient");
    }
}

// ------------------------------------------------------ E05 paying for a bridge

/// A token transfer that pays for its gas: the transferred amount is locked or
/// burned in full, the paymaster gets its price, the rest goes to the refund
/// address, and the other side pays out the full amount.
fn e05(ra: Route, rb: Route, token: &str) {
    let (da, db) = (6, 9);
    let mut a = deploy("osmo", da, ra, db);
    let mut b = deploy("neutron", db, rb, da);
    paymaster(&mut a, db, 10, token);
    set_hooks(&mut a, MERKLE, IGP);
    let (ta, tb) = (denom(&a, ra), denom(&b, rb));
    let (ua, wa) = (a.user(ALICE), a.at(WARP));
    let ub = b.user(ALICE);
    let (amount, extra) = (num::<6>("amount"), num::<6>("extra"));
    sym::assume(amount > 0);
    let (g, owed) = gas();
    a.credit(&ua, &ta, 1 << 60);
    if token != ta {
        a.credit(&ua, token, 1 << 60);
    }
    if rb.bridged {
        // nothing to prepare
    } else {
        // earlier transfers in the other direction have been locked
        b.credit(&b.at(WARP), &tb, 1 << 60);
    }
    a.allow.push((ua.clone(), wa.clone()));
    let short = sym::flag("short");
    let gaspay = if short { num::<3>("too little") } else { owed + extra };
    if short {
        sym::assume(gaspay < owed);
    }
    let refund = [3u8; 20];
    let md = Some(HexBinary::from(gas_metadata(g, Some(&refund))));
    let m32 = HexBinary::from(pad32(&[ALICE; 20]));
    let mut pay = vec![];
    if !ra.cw20 {
        let same = token == ta;
        pay.push(coin_(if same { amount + gaspay } else { amount }, &ta));
    }
    if (ra.cw20 || token != ta) && gaspay > 0 {
        let c = coin_(gaspay, token);
        if pay.is_empty() || token > pay[0].denom.as_str() {
            pay.push(c);
        } else {
            pay.insert(0, c);
        }
    }
    let before = a.clone();
    let r = if ra.cw20 {
        a.tx(&ua, &wa, &pay, &warp::cw20::ExecuteMsg::TransferRemote { dest_domain: db, recipient: m32, amount: amount.into(), hook: None, metadata: md })
    } else {
        a.tx(&ua, &wa, &pay, &warp::native::ExecuteMsg::TransferRemote { dest_domain: db, recipient: m32, amount: amount.into(), hook: None, metadata: md })
    };
    if short {
        sym::check(!r, "a transfer that does not pay for its gas is refused");
        sym::check(a.bal(&ua, &ta) == before.bal(&ua, &ta) && a.bal(&ua, token) == before.bal(&ua, token), "a refused transfer costs nothing");
        sym::reach("refused");
        return;
    }
    sym::check(r, "a transfer that pays for its gas goes through");
    sym::check(a.bal(&a.at(IGP), token) == owed, "the paymaster keeps exactly the price of the gas");
    let rf = bech("osmo", &refund);
    sym::check(a.bal(&rf, token) == extra, "the refund address gets what was paid too much");
    let left = before.bal(&ua, token) - owed - extra - if token == ta { amount } else { 0 };
    sym::check(a.bal(&ua, token) == left, "the sender pays the gas");
    if ra.bridged {
        sym::check(a.supply(&ta) == before.supply(&ta) - amount, "exactly the transferred amount is burned");
        sym::check(a.bal(&wa, &ta) == 0, "the route keeps nothing");
    } else {
        sym::check(a.bal(&wa, &ta) == amount, "exactly the transferred amount is locked");
        sym::check(a.supply(&ta) == before.supply(&ta), "nothing is burned");
    }
    sym::check(a.bal(&a.at(MAILBOX), token) == 0 && a.bal(&a.at(MERKLE), token) == 0, "nothing gets stuck on the way");
    let m = a.sent.last().unwrap().clone();
    sym::check(b.process(&[], &m), "the transfer arrives");
    sym::check(b.bal(&ub, &tb) == amount, "the recipient receives the full amount");
    sym::reach("arrived");
}
#[no_mangle]
pub extern "C-unwind" fn h_e05_gas() {
    match sym::choice("kinds", 3) {
        0 => e05(rt(false, false), rt(true, true), "utok"),
        1 => e05(rt(false, true), rt(false, false), "ugas"),
        _ => e05(rt(true, true), rt(true, false), "ugas"),
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_e05d_gas() {
    let ra = rt(sym::flag("a cw20"), sym::flag("a bridged"));
    let rb = rt(sym::flag("b cw20"), !ra.bridged);
    let token = if !ra.cw20 && !ra.bridged { ["utok", "ugas", "zgas"][sym::choice("token", 3)] } else { ["ugas", "zgas"][sym::choice("token", 2)] };
    e05(ra, rb, token);
}
